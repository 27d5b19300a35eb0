"""What a type checker sees in the generated files, and the reference results."""
from __future__ import annotations

import ast
import builtins
import inspect
import keyword
import unicodedata

from core import World

METHODS = ("from_data", "from_yaml_file")
_views = {}
_modules = {}


class View:
    """Interface of the live class, as read by a type checker."""

    def __init__(self):
        self.problems = []
        self.classes = []
        self.methods = {}  # name -> [signature]


def _strings(node):
    if node is None:
        return []
    return [n.value for n in ast.walk(node) if isinstance(n, ast.Constant) and isinstance(n.value, str)]


def _params(args: ast.arguments):
    """(name, kind, has default) of all parameters except for self/cls."""
    lst = []
    positional = [*args.posonlyargs, *args.args]
    n_without = len(positional) - len(args.defaults)
    for i, arg in enumerate(positional):
        lst.append((arg.arg, "positional", i >= n_without))
    if args.vararg:
        lst.append((args.vararg.arg, "*", False))
    for arg, default in zip(args.kwonlyargs, args.kw_defaults):
        lst.append((arg.arg, "keyword", default is not None))
    if args.kwarg:
        lst.append((args.kwarg.arg, "**", False))
    return lst[1:]


def runtime_params(cls):
    """Public methods of the class and their parameters."""
    kinds = {
        inspect.Parameter.POSITIONAL_ONLY: "positional",
        inspect.Parameter.POSITIONAL_OR_KEYWORD: "positional",
        inspect.Parameter.VAR_POSITIONAL: "*",
        inspect.Parameter.KEYWORD_ONLY: "keyword",
        inspect.Parameter.VAR_KEYWORD: "**",
    }
    dct = {}
    for name, value in vars(cls).items():
        if name.startswith("_") and name != "__init__":
            continue
        if isinstance(value, (classmethod, staticmethod)):
            value = value.__func__
        if not inspect.isfunction(value):
            continue
        params = list(inspect.signature(value).parameters.values())[1:]
        dct[name] = [(p.name, kinds[p.kind], p.default is not p.empty) for p in params]
    return dct


def _bound_names(tree):
    names = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__loader__"}
    for node in ast.walk(tree):
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            for alias in node.names:
                names.add((alias.asname or alias.name).split(".")[0])
        elif isinstance(node, (ast.ClassDef, ast.FunctionDef)):
            names.add(node.name)
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            names.add(node.id)
    return names


def _own_names(statements):
    names = set()
    for node in statements:
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            names.update((alias.asname or alias.name).split(".")[0] for alias in node.names)
        elif isinstance(node, (ast.ClassDef, ast.FunctionDef)):
            names.add(node.name)
        elif isinstance(node, (ast.Assign, ast.AnnAssign)):
            names.update(n.id for t in getattr(node, "targets", None) or [node.target] for n in ast.walk(t) if isinstance(n, ast.Name))
    return names


def parse_interface(content: bytes, cls_name="LazyTypeHintLive") -> View:
    if content in _views:
        return _views[content]
    view = View()
    if len(_views) > 4000:
        _views.clear()
    _views[content] = view
    problems = view.problems
    try:
        tree = ast.parse(content.decode("utf-8"))
    except (SyntaxError, ValueError) as error:
        problems.append(f"the interface cannot be parsed: {error}")
        return view
    imports = []
    for node in tree.body:
        if isinstance(node, ast.ImportFrom) and node.module and ".build." in f".{node.module}.":
            for alias in node.names:
                imports.append((node.module.split(".")[-1], alias.name, alias.asname or alias.name))
    classes = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == cls_name]
    if len(classes) != 1:
        problems.append(f"{len(classes)} definitions of {cls_name} in the interface")
        return view
    for node in classes[0].body:
        target = None
        if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
            target = node.target.id
        elif isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            target = node.targets[0].id
        if target == "classes_created":
            view.classes.extend(_strings(node.value))
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            args = node.args
            literal = None
            for arg in [*args.posonlyargs, *args.args, *args.kwonlyargs]:
                if arg.arg == "class_name" and arg.annotation is not None:
                    strings = _strings(arg.annotation)
                    literal = strings or None
            returns = node.returns
            returned = returns.id if isinstance(returns, ast.Name) else (_strings(returns) or [None])[0]
            decorators = [d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "?") for d in node.decorator_list]
            view.methods.setdefault(node.name, []).append(
                {"literal": literal, "returns": returned, "decorators": decorators, "params": _params(args)}
            )
    if len(set(view.classes)) != len(view.classes):
        problems.append(f"repeated classes in classes_created: {view.classes}")
    listed = sorted(view.classes)
    others = _own_names([n for n in tree.body if not (isinstance(n, ast.ImportFrom) and n.module and ".build." in n.module)] + classes[0].body)
    for name in listed:
        if name in others:
            problems.append(f"{name} is not only the generated class in the interface")
    for module, name, bound in imports:
        if not module == name == bound:
            problems.append(f"wrong import of a generated class: {module}.{name} as {bound}")
    if sorted(i[1] for i in imports) != listed:
        problems.append(f"imports {sorted(i[1] for i in imports)} do not match classes_created {listed}")
    for method in METHODS:
        overloads = view.methods.get(method, [])
        if not overloads:
            problems.append(f"{method} is missing in the interface")
            continue
        specific = [o for o in overloads if o["literal"] is not None]
        generic = [o for o in overloads if o["literal"] is None]
        if len(generic) != 1:
            problems.append(f"{len(generic)} generic declarations of {method}")
        elif overloads[-1] is not generic[0]:
            problems.append(f"an overload of {method} is after the generic declaration")
        names = []
        for o in specific:
            names.extend(o["literal"])
            if len(o["literal"]) != 1 or o["returns"] != o["literal"][0]:
                problems.append(f"overload of {method} for {o['literal']} returns {o['returns']}")
        if sorted(names) != listed:
            problems.append(f"overloads of {method} {sorted(names)} do not match classes_created {listed}")
        if len(overloads) > 1 and not all("overload" in o["decorators"] for o in overloads):
            problems.append(f"a declaration of {method} has no @overload")
        if len(overloads) == 1 and "overload" in overloads[0]["decorators"]:
            problems.append(f"{method} has a single @overload")
        for o in overloads:
            if len(set(o["decorators"])) != len(o["decorators"]):
                problems.append(f"repeated decorators of {method} ({o['literal']}): {o['decorators']}")
                break
    bound = _bound_names(tree)
    for node in ast.walk(tree):
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id not in bound:
            problems.append(f"undefined name in the interface: {node.id}")
            break
    return view


def check_signatures(view: View, cls) -> list:
    """The interface declares the public methods with the parameters that they really have."""
    problems = []
    real = runtime_params(cls)
    for name, params in real.items():
        if name not in view.methods:
            problems.append(f"public method {name} is missing in the interface")
            continue
        for declared in view.methods[name]:
            if declared["params"] != params:
                problems.append(f"parameters of {name} in the interface are {declared['params']} instead of {params}")
                break
    return problems


def module_problem(name: str, content) -> str:
    """Reason why a generated module does not provide its class ("" if it does)."""
    if content is None:
        return f"{name} is listed but its module does not exist"
    key = (name, content)
    if key in _modules:
        return _modules[key]
    if len(_modules) > 20000:
        _modules.clear()
    problem = ""
    try:
        tree = ast.parse(content.decode("utf-8"))
        compile(content, name, "exec", dont_inherit=True)
    except (SyntaxError, ValueError) as error:
        problem = f"module of {name} is not valid: {error}"
    else:
        defined = set()
        for node in tree.body:
            if isinstance(node, (ast.ClassDef, ast.FunctionDef)):
                defined.add(node.name)
            elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                defined.add(node.target.id)
            elif isinstance(node, ast.Assign):
                defined.update(t.id for t in node.targets if isinstance(t, ast.Name))
        if name not in defined:
            problem = f"module of {name} does not define it"
    _modules[key] = problem
    return problem


class Registry:
    """State of the generated files."""

    def __init__(self, world):
        self.pyi = World.read(world.pyi)
        self.view = parse_interface(self.pyi) if self.pyi is not None else View()
        self.problems = list(self.view.problems)
        self.modules = {}
        for name in self.view.classes:
            content = World.read(f"{world.build}/{name}.py")
            self.modules[name] = content
            problem = module_problem(name, content)
            if problem:
                self.problems.append(problem)

    def texts(self):
        return {
            name: content.decode("utf-8", "backslashreplace") if content is not None else None
            for name, content in self.modules.items()
        }


def generated_files(world):
    """Every generated file: path -> bytes."""
    dct = {}
    pyi = World.read(world.pyi)
    if pyi is not None:
        dct["pyi"] = pyi
    try:
        tree = World.tree(world.build)
    except FileNotFoundError:
        return dct
    dct["build"] = None
    for path, content in tree.items():
        if "__pycache__" in path:
            continue
        dct["build" + path[len(world.build) :]] = content
    return dct


def describe(files):
    return {k: (v if v is None else v.decode("utf-8", "backslashreplace")[:400]) for k, v in files.items()}


# ------------------------------------------------------------------------------------------------------------------


def without_docstrings(text: str) -> str:
    """Own definition of equality of type hints: same code once the docstrings are removed."""
    tree = ast.parse(text)
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef)):
            node.body = [
                s
                for s in node.body
                if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))
            ]
    return ast.dump(tree)


def same_hints(a: str, b: str) -> bool:
    if a == b:
        return True
    try:
        return without_docstrings(a) == without_docstrings(b)
    except (SyntaxError, ValueError):
        return False


def valid_identifier(name: str) -> bool:
    return name.isidentifier() and not keyword.iskeyword(name) and name.replace("_", "").isalnum()


def valid_class_name(name: str) -> bool:
    """Names for the live class: The parser of Python changes the ones that are not normalized."""
    return valid_identifier(name) and unicodedata.normalize("NFKC", name) == name and name not in USED


# The interface needs them for itself. There are more, but these ones cannot be avoided
USED = ("LazyTypeHintLive", "from_data", "from_yaml_file", "reset", "classes_created", "str", "Any", "overload", "Literal", "Union")
