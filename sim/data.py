"""Data given to the library, described with JSON so that a scenario can be stored, shrunk and replayed."""
from __future__ import annotations

import collections
import gc
import io
import itertools
import math
import os
import types

import datafuncs

# ------------------------------------------------------------------------------------------------------------------
# Building


class SourceError(Exception):
    """Raised by the data sources of the scenarios."""


class Pulled:
    """Iterator that counts what is requested from it."""

    def __init__(self, items, *, fail_at=None, endless=False, on_pull=None, error=SourceError):
        self.items = list(items)
        self.count = 0
        self.fail_at = fail_at
        self.endless = endless
        self.on_pull = on_pull
        self.error = error

    def __iter__(self):
        return self

    def again(self):
        """New iteration over the same elements. `count` of the owner is the one of the longest iteration."""
        other = Pulled(self.items, fail_at=self.fail_at, endless=self.endless, on_pull=self._pulled, error=self.error)
        other.owner = self
        return other

    def _pulled(self, count):
        self.count = max(self.count, count)
        if self.on_pull is not None:
            self.on_pull(count)

    def __next__(self):
        self.count += 1
        if self.on_pull is not None:
            self.on_pull(self.count)
        if self.fail_at is not None and self.count >= self.fail_at:
            raise self.error(f"element {self.count} is not available")
        if self.count > len(self.items):
            if self.endless and self.items:
                return self.items[(self.count - 1) % len(self.items)]
            raise StopIteration
        return self.items[self.count - 1]


def _counted(base):
    """Container of type `base` that counts what is requested each time that it is iterated."""

    class Counted(base):
        def __iter__(self):
            return self.source.again()

    Counted.__name__ = Counted.__qualname__ = f"Counted{base.__name__}"
    return Counted


COUNTED = {"list": _counted(list), "tuple": _counted(tuple)}
ERRORS = {
    e.__name__: e
    for e in (KeyboardInterrupt, MemoryError, ValueError, TypeError, KeyError, AttributeError, OSError, RuntimeError, IndexError, SyntaxError)
}


class LazySeq(list):
    """List of the user that creates its elements when they are requested."""

    def __init__(self, specs, env):
        super().__init__([None] * len(specs))
        self.specs, self.env = specs, env

    def __iter__(self):
        return (_created(s, self.env) for s in self.specs)

    def __getitem__(self, i):
        return _created(self.specs[i], self.env)


class LazyMap(dict):
    """Dictionary of the user that creates its values when they are requested."""

    def __init__(self, pairs, env):
        self.env = env
        self.pairs = {build(k, env): v for k, v in pairs}
        super().__init__(self.pairs)

    def __getitem__(self, key):
        return _created(self.pairs[key], self.env)

    def get(self, key, default=None):
        return self[key] if key in self.pairs else default

    def values(self):
        return (self[k] for k in self.pairs)

    def items(self):
        return ((k, self[k]) for k in self.pairs)


def _created(spec, env):
    if env is not None and env.collect:
        gc.collect()
    value = build(spec, env)
    if env is not None and env.retain is not None:
        env.retain.append(value)
    return value


class Env:
    """Objects that were built for a scenario and have to be looked at afterwards."""

    def __init__(self):
        self.retain = None  # List to keep alive what is created when requested
        self.collect = False  # Unreachable objects are freed before creating others
        self.sources = []
        self.on_pull = None
        self.shared = {}


def build(spec, env=None):
    kind = spec[0]
    if kind == "none":
        return None
    if kind in ("bool", "int", "str"):
        return spec[1]
    if kind == "float":
        return float(spec[1])
    if kind == "bytes":
        return spec[1].encode()
    if kind == "complex":
        return complex(0, spec[1])
    if kind == "list":
        return [build(s, env) for s in spec[1]]
    if kind == "repeat":  # Long list
        return [build(s, env) for s in spec[1]] * spec[2]
    if kind == "tuple":
        return tuple(build(s, env) for s in spec[1])
    if kind == "set":
        return {build(s, env) for s in spec[1]}
    if kind == "frozenset":
        return frozenset(build(s, env) for s in spec[1])
    if kind == "dict":
        return {build(k, env): build(v, env) for k, v in spec[1]}
    if kind == "odict":
        return collections.OrderedDict((build(k, env), build(v, env)) for k, v in spec[1])
    if kind == "ddict":
        dct = collections.defaultdict(int)
        dct.update((build(k, env), build(v, env)) for k, v in spec[1])
        return dct
    if kind == "mproxy":
        return types.MappingProxyType({build(k, env): build(v, env) for k, v in spec[1]})
    if kind == "udict":
        return collections.UserDict({build(k, env): build(v, env) for k, v in spec[1]})
    if kind == "range":
        return range(spec[1], spec[2])
    if kind == "slice":
        return slice(spec[1], spec[2])
    if kind == "deque":
        return collections.deque(build(s, env) for s in spec[1])
    if kind == "point":
        return datafuncs.Point(build(spec[1], env), build(spec[2], env))
    if kind == "func":
        return datafuncs.FUNCTIONS[spec[1]]
    if kind == "lambda":
        return datafuncs.LAMBDAS[spec[1]]
    if kind == "type":
        return datafuncs.TYPES[spec[1]]
    if kind == "inst":
        return datafuncs.INSTANCES[spec[1]]()
    if kind == "module":
        return {"os": os, "math": math}[spec[1]]
    if kind == "textio":
        return io.StringIO("text")
    if kind == "bytesio":
        return io.BytesIO(b"line\nother\n")
    if kind == "nd":
        import numpy as np

        return np.array(spec[2], dtype=spec[1])
    if kind == "series":
        import pandas as pd

        series = pd.Series([build(s, env) for s in spec[1]], dtype=object if not spec[1] else None)
        return _with_options(series, spec[2] if len(spec) > 2 else {}, pd)
    if kind == "df":
        import pandas as pd

        columns = [build(c, env) for c, _ in spec[1]]
        values = [[build(s, env) for s in v] for _, v in spec[1]]
        frame = pd.DataFrame({i: v for i, v in enumerate(values)})
        if columns and all(isinstance(c, tuple) for c in columns):
            frame.columns = pd.MultiIndex.from_tuples(columns)
        else:
            frame.columns = columns
        return _with_options(frame, spec[2] if len(spec) > 2 else {}, pd)
    if kind == "lazyseq":
        return LazySeq(spec[1], env)
    if kind == "lazymap":
        return LazyMap(spec[1], env)
    if kind == "obj":
        return datafuncs.OBJECTS[spec[1]]()
    if kind == "shared":  # The same object in several places
        if spec[1] not in env.shared:
            env.shared[spec[1]] = build(spec[2], env)
        return env.shared[spec[1]]
    if kind == "iter":
        return iter([build(s, env) for s in spec[1]])
    if kind == "gen":
        return (x for x in [build(s, env) for s in spec[1]])
    if kind == "src":  # ["src", items, options]
        opts = dict(spec[2])
        source = Pulled(
            [build(s, env) for s in spec[1]],
            fail_at=opts.get("fail_at"),
            endless=opts.get("endless", False),
            on_pull=env.on_pull if env is not None else None,
            error=ERRORS.get(opts.get("error"), SourceError),
        )
        if env is not None:
            env.sources.append(source)
        shape = opts.get("as")
        if shape == "gen":
            return _as_generator(source)
        if shape == "map":
            return map(_same, source)
        if shape == "chain":
            return itertools.chain(source)
        if shape in COUNTED:
            container = COUNTED[shape](source.items)
            container.source = source
            return container
        return source
    raise ValueError(spec)


def _with_options(obj, options, pd):
    index = options.get("index")
    if index == "text":
        obj.index = [chr(ord("z") - i) for i in range(len(obj))]
    elif index == "dates":
        obj.index = pd.to_datetime(["2020-01-02", "2020-01-01", "2020-01-03"][: len(obj)])
    elif index == "levels":
        obj.index = pd.MultiIndex.from_tuples([(i % 2, "b") for i in range(len(obj))])
    if options.get("name"):
        if isinstance(obj, pd.Series):
            obj.name = options["name"]
        elif not isinstance(obj.columns, pd.MultiIndex):
            obj.columns.name = options["name"]
    if options.get("attrs"):
        obj.attrs["source"] = options["attrs"]
    if options.get("category") and isinstance(obj, pd.Series):
        obj = obj.astype("category")
    return obj


def _same(element):
    return element


def _as_generator(source):
    for element in source:
        yield element


# ------------------------------------------------------------------------------------------------------------------
# Generation

KEYS = ["name", "age", "address", "tags", "values", "x", "y", "camelCase", "snake_case_key", "n1"]
ODD_KEYS = ["my key", "1st", "class", "key-with-dash", "ñandú", "", "日本", "a.b", "None", "_private", "__dunder"]
WORDS = ["", "a", "hello", "Ünïcödé", "日本語", "😀 smile", "quote's", 'double "quoted"', "line\nbreak", "tab\t"]


class Gen:
    """Random data. `exotic` enables functions, modules, numpy and pandas. `iterators` one-shot iterators."""

    def __init__(self, rng, *, exotic=True, iterators=False, pandas=True, max_depth=3, odd_keys=True, width=4):
        self.rng = rng
        self.exotic = exotic
        self.iterators = iterators
        self.pandas = pandas
        self.max_depth = max_depth
        self.odd_keys = odd_keys
        self.width = width

    def scalar(self):
        r = self.rng.random()
        if r < 0.3:
            return ["int", self.rng.randrange(-3, 100)]
        if r < 0.6:
            return ["str", self.rng.choice(WORDS)]
        if r < 0.75:
            return ["float", self.rng.choice([0.5, 1.0, -2.25])]
        if r < 0.88:
            return ["bool", self.rng.random() < 0.5]
        return ["none"]

    def key(self):
        r = self.rng.random()
        if self.odd_keys and r < 0.12:
            return ["str", self.rng.choice(ODD_KEYS)]
        if r < 0.92:
            return ["str", self.rng.choice(KEYS)]
        if r < 0.96:
            return ["int", self.rng.randrange(5)]
        return self.rng.choice([["tuple", [["int", 1], ["str", "a"]]], ["bool", True], ["none"], ["float", 0.5]])

    def strkey(self):
        return ["str", self.rng.choice(KEYS)]

    def size(self):
        if self.rng.random() < 0.04:
            return self.rng.randrange(5, 13)
        return self.rng.choice([0, 1, 1, 2, 2, 3, self.width])

    def pairs(self, depth, key=None):
        dct = {}
        plain = self.rng.random() < 0.8
        for _ in range(self.size()):
            k = self.strkey() if plain else self.key()
            dct[repr(k)] = [k, self.value(depth + 1)]
        return list(dct.values())

    def similar_dicts(self, depth):
        base = self.pairs(depth)
        lst = []
        for _ in range(self.rng.randrange(2, 4)):
            variant = [list(p) for p in base if self.rng.random() < 0.8]
            if self.rng.random() < 0.3:
                variant.append([["str", self.rng.choice(KEYS)], self.scalar()])
            unique = {repr(k): [k, v] for k, v in variant}
            lst.append(["dict", list(unique.values())])
        return lst

    def value(self, depth=0):
        rng = self.rng
        if depth >= self.max_depth or rng.random() < 0.25 + 0.1 * depth:
            return self.leaf()
        r = rng.random()
        if r < 0.34:
            return ["dict", self.pairs(depth)]
        if r < 0.5:
            if rng.random() < 0.35:
                return ["list", self.similar_dicts(depth)]
            return ["list", [self.value(depth + 1) for _ in range(self.size())]]
        if r < 0.62:
            if rng.random() < 0.2:
                return ["tuple", self.similar_dicts(depth)]
            return ["tuple", [self.value(depth + 1) for _ in range(self.size())]]
        if r < 0.7:
            return [rng.choice(["set", "frozenset"]), [self.scalar() for _ in range(self.size())]]
        if r < 0.78:
            return [rng.choice(["mproxy", "odict", "ddict", "dict"]), self.pairs(depth)]
        if r < 0.82:
            return ["repeat", [self.scalar() for _ in range(rng.randrange(1, 4))], rng.choice([2, 5, 200])]
        if self.iterators and r < 0.9:
            return [rng.choice(["iter", "gen"]), [self.value(depth + 1) for _ in range(self.size())]]
        return self.leaf()

    def leaf(self):
        rng = self.rng
        if not self.exotic or rng.random() < 0.65:
            return self.scalar()
        r = rng.random()
        if r < 0.2:
            return ["func", rng.choice(sorted(datafuncs.FUNCTIONS))]
        if r < 0.3:
            return ["lambda", rng.randrange(3)]
        if r < 0.42:
            return ["type", rng.choice(sorted(datafuncs.TYPES))]
        if r < 0.54:
            return ["inst", rng.choice(sorted(datafuncs.INSTANCES))]
        if r < 0.6:
            return ["module", rng.choice(["os", "math"])]
        if r < 0.65:
            return rng.choice([["textio"], ["textio"], ["bytesio"]])
        if r < 0.7:
            return rng.choice([["range", 0, 4], ["slice", 0, 3], ["bytes", "x"], ["complex", 2]])
        if r < 0.72:
            return ["deque", [self.scalar()]]
        if r < 0.75:
            return ["point", self.scalar(), self.scalar()]
        if r < 0.84:
            return ["obj", rng.choice(sorted(datafuncs.OBJECTS))]
        if not self.pandas:
            return self.scalar()
        if r < 0.88:
            return rng.choice([["nd", "int64", [1, 2]], ["nd", "float64", [[0.5, 1.0]]], ["nd", "bool", [True]], ["nd", "int64", 1]])
        if r < 0.94:
            return ["series", [self.scalar() for _ in range(rng.randrange(1, 4))], self.pandas_options()]
        return self.frame()

    def pandas_options(self):
        rng = self.rng
        options = {}
        if rng.random() < 0.4:
            options["index"] = rng.choice(["text", "dates", "levels"])
        if rng.random() < 0.3:
            options["name"] = rng.choice(["n", "ñ"])
        if rng.random() < 0.2:
            options["attrs"] = "test"
        if rng.random() < 0.1:
            options["category"] = True
        return options

    def frame(self):
        rng = self.rng
        n = rng.randrange(1, 4)
        r = rng.random()
        if r < 0.6:
            names = rng.sample(KEYS + ["my col", "", "ñ"], n)
            columns = [["str", c] for c in names]
        elif r < 0.75:
            columns = [["int", i] for i in range(n)]
            rng.shuffle(columns)
        elif r < 0.9:
            columns = [["tuple", [["str", rng.choice("ab")], ["str", f"c{i}"]]] for i in range(n)]
            rng.shuffle(columns)
        else:
            columns = [["tuple", [["str", rng.choice("ab")], ["str", rng.choice("cd")], ["str", f"e{i}"]]] for i in range(n)]
            rng.shuffle(columns)
        kinds = [["int", 1], ["str", "s"], ["float", 0.5], ["bool", True], ["list", [["int", 1]]], ["none"]]
        kinds = kinds[: 4 if rng.random() < 0.8 else 6]
        return ["df", [[c, [rng.choice(kinds)] * 2] for c in columns], self.pandas_options()]


def zoo(rng):
    """Many different kinds of objects together."""
    animals = [
        *[["func", name] for name in sorted(datafuncs.FUNCTIONS)],
        ["lambda", 2],
        ["type", "Custom"],
        ["inst", "Custom"],
        ["module", "math"],
        ["textio"],
        ["range", 0, 3],
        ["point", ["int", 1], ["str", "a"]],
        ["mproxy", [[["str", "a"], ["int", 1]]]],
        ["tuple", [["int", 1], ["str", "a"], ["list", [["int", 1]]]]],
        ["set", [["int", 1]]],
        ["list", [["dict", [[["str", "a"], ["int", 1]]]], ["dict", [[["str", "a"], ["int", 1]], [["str", "b"], ["none"]]]]]],
        ["dict", [[["str", "my key"], ["int", 1]]]],
        ["dict", [[["int", 1], ["int", 1]]]],
        ["nd", "float64", [0.5]],
        ["series", [["int", 1], ["str", "a"]]],
        ["df", [[["str", "a"], [["int", 1]] * 2], [["str", "b"], [["str", "s"]] * 2]]],
        *[["obj", name] for name in rng.sample(sorted(datafuncs.OBJECTS), 3)],
        ["frozenset", [["int", 1]]],
    ]
    chosen = rng.sample(animals, rng.choice([3, 4, 5, 6, 7, 7, 16]))
    if rng.random() < 0.5:
        return ["dict", [[["str", f"k{i}"], animal] for i, animal in enumerate(chosen)]]
    return [rng.choice(["list", "tuple"]), chosen]


def strategies(rng, *, n_max=True, simple=False):
    """Keyword arguments of ParsingStrategies."""
    if simple or rng.random() < 0.35:
        return {}
    dct = {}
    if rng.random() < 0.5:
        dct["list_strategy"] = rng.choice(["list", "Sequence"])
    if rng.random() < 0.5:
        dct["tuple_size_strategy"] = rng.choice(["fixed", "any size"])
    if rng.random() < 0.5:
        dct["dict_strategy"] = rng.choice(["TypedDict", "Mapping", "dict"])
    if rng.random() < 0.3:
        dct["pandas_strategies"] = rng.choice(
            ["Full type hint", "Type hint only for autocomplete", "Do not type hint columns"]
        )
    if rng.random() < 0.4:
        dct["min_height_to_define_type_alias"] = rng.choice([0, 1, 2, 5])
    if rng.random() < 0.2:
        dct["key_used_as_doc"] = rng.choice(["name", "tags", "x"])
    if rng.random() < 0.3:
        dct["merge_different_typed_dicts_if_similarity_above"] = rng.choice([1, 30, 50, 80, 100])
    if rng.random() < 0.3:
        dct["typed_dict_read_only_values"] = True
    if n_max and rng.random() < 0.3:
        dct["check_max_n_elements_within_container"] = rng.choice([1, 2, 3, 10, 500, None])
    return dct


def contains(spec, kinds):
    if isinstance(spec, list):
        if spec and isinstance(spec[0], str) and spec[0] in kinds:
            return True
        return any(contains(s, kinds) for s in spec)
    return False


def max_set(spec):
    """Size of the biggest set."""
    best = 0
    if isinstance(spec, list):
        if spec and spec[0] in ("set", "frozenset") and len(spec) == 2 and isinstance(spec[1], list):
            best = len(spec[1])
        for s in spec:
            best = max(best, max_set(s))
    return best


# ------------------------------------------------------------------------------------------------------------------
# Fingerprint: structure, content and identity of the containers


def fingerprint(obj, depth=0):
    cls = type(obj).__name__
    if obj is None or isinstance(obj, (bool, int, float, str, bytes, complex)):
        return (cls, repr(obj))
    if depth > 12:
        return (cls, "...")
    if isinstance(obj, (list, tuple, collections.deque)):
        return (cls, id(obj), tuple(fingerprint(o, depth + 1) for o in obj))
    if isinstance(obj, (set, frozenset)):
        return (cls, id(obj), tuple(sorted((fingerprint(o, depth + 1) for o in obj), key=repr)))
    if isinstance(obj, (dict, types.MappingProxyType, collections.UserDict)):
        own = id(obj) if not isinstance(obj, types.MappingProxyType) else 0
        return (cls, own, tuple((fingerprint(k, depth + 1), fingerprint(v, depth + 1)) for k, v in obj.items()))
    if cls == "DataFrame":
        return (cls, id(obj), repr(list(obj.columns)), repr(list(obj.index)), repr(obj.dtypes.tolist()), repr(obj.values.tolist()), repr(obj.attrs), repr(obj.columns.names), repr(obj.index.names))
    if cls == "Series":
        return (cls, id(obj), repr(obj.index.tolist()), str(obj.dtype), repr(obj.tolist()), repr(obj.name), repr(obj.attrs))
    if cls == "ndarray":
        return (cls, id(obj), str(obj.dtype), repr(obj.tolist()), obj.flags.writeable)
    if isinstance(obj, (io.StringIO, io.BytesIO)):
        return (cls, id(obj), obj.getvalue(), obj.tell(), obj.closed)
    if isinstance(obj, bytearray):
        return (cls, id(obj), bytes(obj))
    if cls == "array":
        return (cls, id(obj), repr(obj))
    if cls == "ChainMap":
        return (cls, id(obj), tuple(fingerprint(m, depth + 1) for m in obj.maps))
    if cls == "Slots":
        return (cls, id(obj), repr(getattr(obj, "a", None)))
    if cls in ("Custom", "Other", "Reading", "Record"):
        return (cls, id(obj), repr(sorted(vars(obj).items())))
    return (cls, id(obj))


# ------------------------------------------------------------------------------------------------------------------
# Shrinking


def shrink(spec):
    """Simpler versions of the data, the simplest ones first."""
    if spec != ["int", 1]:
        yield ["int", 1]
    kind = spec[0]
    if kind in ("list", "tuple", "set", "frozenset", "iter", "gen", "repeat", "src", "deque", "series", "lazyseq"):
        items = spec[1]
        rest = spec[2:]
        if kind not in ("list", "src"):
            yield ["list", items]
        for i in range(len(items)):
            yield items[i]
            yield [kind, items[:i] + items[i + 1 :], *rest]
        for i, item in enumerate(items):
            for simpler in shrink(item):
                yield [kind, [*items[:i], simpler, *items[i + 1 :]], *rest]
    elif kind in ("dict", "mproxy", "odict", "ddict", "udict", "lazymap"):
        pairs = spec[1]
        if kind != "dict":
            yield ["dict", pairs]
        for i in range(len(pairs)):
            yield pairs[i][1]
            yield [kind, pairs[:i] + pairs[i + 1 :]]
        for i, (k, v) in enumerate(pairs):
            for simpler in shrink(v):
                yield [kind, [*pairs[:i], [k, simpler], *pairs[i + 1 :]]]
    elif kind == "str" and len(spec[1]) > 1:
        yield ["str", "a"]
    elif kind == "shared":
        yield spec[2]


# ------------------------------------------------------------------------------------------------------------------
# Variations: data that is nearly the same

OTHER = {
    "int": [["int", 7], ["str", "7"], ["float", 0.5], ["bool", True], ["none"]],
    "str": [["str", "other text"], ["int", 1], ["none"], ["list", [["str", "a"]]]],
    "float": [["float", 9.5], ["int", 1], ["str", "x"]],
    "bool": [["bool", False], ["int", 0], ["none"]],
    "none": [["none"], ["int", 0], ["str", ""]],
}


def near_keys(key):
    """Keys that are almost the same one."""
    kind, *value = key
    if kind == "str" and value[0]:
        text = value[0]
        yield from (["str", t] for t in (text.swapcase(), text + "_", text.capitalize()) if t != text)
        if text.isdecimal() and text.isascii():
            yield ["int", int(text)]
    elif kind == "int":
        yield ["str", str(value[0])]
        yield ["int", value[0] + 1]


def large(rng):
    """Data with more type hints than a few buffers."""
    kinds = [["int", 1], ["str", "a"], ["none"], ["list", [["int", 1]]], ["dict", [[["str", "inner"], ["int", 1]]]]]
    return ["dict", [[["str", f"a_key_that_is_long_{i}"], rng.choice(kinds)] for i in range(rng.randrange(80, 200))]]


def vary(spec, rng, near_only=False):
    """Change one thing somewhere (or only the name of a key for a similar one)."""
    nodes = []

    def walk(node, path):
        nodes.append((node, path))
        if node[0] in ("dict", "mproxy", "odict", "ddict"):
            for i, (_, value) in enumerate(node[1]):
                walk(value, (*path, 1, i, 1))
        elif node[0] in ("list", "tuple", "set", "frozenset", "repeat", "series", "deque"):
            for i, value in enumerate(node[1]):
                walk(value, (*path, 1, i))

    walk(spec, ())
    if near_only:
        nodes = [(n, p) for n, p in nodes if n[0] in ("dict", "df") and any(True for k, *_ in n[1] for _ in near_keys(k))] or nodes
    node, path = rng.choice(nodes)
    kind = node[0]
    new = node
    if kind in OTHER:
        new = rng.choice(OTHER[kind]) if rng.random() < 0.7 else OTHER[kind][0]
    elif kind in ("dict", "mproxy", "odict", "ddict"):
        pairs = list(node[1])
        r = rng.random()
        near = [(i, k) for i, p in enumerate(pairs) for k in near_keys(p[0]) if all(k != other for other, _ in pairs)]
        if near and rng.random() < (1 if near_only else 0.2):
            i, key = rng.choice(near)
            pairs[i] = [key, pairs[i][1]]
        elif r < 0.3 and pairs:
            pairs.pop(rng.randrange(len(pairs)))
        elif r < 0.6:
            key = ["str", rng.choice(KEYS)]
            if all(k != key for k, _ in pairs):
                pairs.insert(rng.randrange(len(pairs) + 1), [key, rng.choice([["int", 1], ["str", "a"], ["none"]])])
        elif r < 0.8 and len(pairs) > 1:
            pairs.reverse()
        elif pairs:
            i = rng.randrange(len(pairs))
            key = ["str", rng.choice(KEYS)]
            if all(k != key for k, _ in pairs):
                pairs[i] = [key, pairs[i][1]]
        new = [rng.choice([kind, kind, kind, "dict", "mproxy"]), pairs]
    elif kind in ("list", "tuple", "repeat", "deque"):
        items = list(node[1])
        r = rng.random()
        if r < 0.3 and len(items) > 1:
            items.reverse()
        elif r < 0.5 and items:
            items.append(rng.choice(items))
        elif r < 0.7 and items:
            items.pop()
        else:
            items.append(rng.choice([["int", 1], ["str", "a"], ["none"], ["float", 0.5]]))
        new = [rng.choice([kind, kind, kind, "list", "tuple"]) if kind != "repeat" else kind, items, *node[2:]]
        if new[0] != kind:
            new = new[:2]
    elif kind == "df":
        columns = [list(c) for c in node[1]]
        near = [(i, k) for i, c in enumerate(columns) for k in near_keys(c[0]) if all(k != other for other, *_ in columns)]
        r = rng.random()
        if near and (near_only or r < 0.5):
            i, key = rng.choice(near)
            columns[i][0] = key
        elif columns and r < 0.75:
            i = rng.randrange(len(columns))
            columns[i][1] = [rng.choice([["int", 1], ["str", "a"], ["float", 0.5]])] * len(columns[i][1])
        else:
            columns.reverse()
        new = [kind, columns, *node[2:]]
    elif kind in ("func", "type", "inst"):
        new = [kind, rng.choice(sorted({"func": datafuncs.FUNCTIONS, "type": datafuncs.TYPES, "inst": datafuncs.INSTANCES}[kind]))]

    def put(node, path, in_set=False):
        if not path:
            return node if in_set and contains(new, ("list", "dict", "set", "odict", "ddict", "deque", "mproxy")) else new
        copy = list(node)
        in_set = in_set or (isinstance(node[0], str) and node[0] in ("set", "frozenset"))
        copy[path[0]] = put(node[path[0]], path[1:], in_set)
        return copy

    return put(spec, path)


def vary_yaml(text, rng):
    """Change one thing. The result can be loaded."""
    import yaml

    for _ in range(4):
        varied = _vary_yaml(text, rng)
        try:
            yaml.safe_load(varied)
        except yaml.YAMLError:
            continue
        return varied
    return text


def same_length_yaml(text, rng):
    """Change one character. The result can be loaded."""
    import yaml

    places = [i for i, c in enumerate(text) if c.isascii() and c.isalnum()]
    for _ in range(6):
        if not places:
            break
        i = rng.choice(places)
        varied = text[:i] + rng.choice("1a7b0") + text[i + 1 :]
        try:
            yaml.safe_load(varied)
        except Exception:  # noqa: BLE001, S112
            continue
        if varied != text:
            return varied
    return text


def _vary_yaml(text, rng):
    lines = text.split("\n")
    i = rng.randrange(max(1, len(lines) - 1))
    r = rng.random()
    if r < 0.35:  # Other comment
        head = lines[i].split(" #")[0]
        if head.strip() and not head.lstrip().startswith("#"):
            lines[i] = f"{head} # {rng.choice(['Other words', 'Ünother', 'with [brackets]', 'a.b'])}"
    elif r < 0.5:
        lines[i] = lines[i].split(" #")[0]
    elif r < 0.65:
        lines.insert(i, "# " + rng.choice(["Inserted above", "other"]))
    elif r < 0.8:
        lines[i] = lines[i].replace(": 1", ": 2").replace(": text", ": words").replace(": John", ": Mary")
    elif r < 0.9:
        lines[i] = lines[i].replace(": 1", ": one").replace(": text", ": 5").replace(": 20", ": 2.5")
    else:
        lines.insert(len(lines) - 1, "added: 1")
    return "\n".join(lines)


# ------------------------------------------------------------------------------------------------------------------
# YAML files

YAML_TEXTS = [
    "",
    "just a text # comment\n",
    "# Above a\na: 1 # Side a\n# Below a\nb: text # Side b\n",
    "name: John # The name\nage: 20 # Years\nitems:\n  - 1\n  - two # Not a key\n",
    "top:\n  # Above inner\n  inner: 1.5 # Side inner\n  other: null\nlist:\n  - k: 1 # k doc\n    l: 2\n  - k: 3\n    l: x # l doc\n",
    "plain: 1\nanother: value\n",
    "key: 'quoted # not a comment' # real comment\n\"quoted key\": 2 # Quoted key doc\n",
    "ñandú: 1 # Comentario en español: ñ\n日本: 2 # 日本語のコメント\n",
    "- 1\n- 2 # two\n- a: 1 # in list\n",
    "a:\n  b:\n    c:\n      d: 1 # deep 😀\n      e: [1, 2, x] # list\n",
    "x: 1 # first\nx2: 2 # second\nnested: {a: 1, b: 2} # flow\n",
    "# Only a comment\nsingle: yes # boolean\n",
    "value: 2020-01-01 # date\nnothing:\n",
    "x: {\n  a: 1, # one\n  b: 2 # two\n  }\ny: 1 # plain\n",
    "a: 1 # first\nlist: [1, # one\n  2] # two\nb: &anchor # anchor\n  c: 1 # inner\nd: *anchor # alias\n",
    "name: John # Says \"hello\" \nage: 20 # it's a\ttab\n",
]


def yaml_text(rng):
    if rng.random() < 0.6:
        return rng.choice(YAML_TEXTS)
    lines = []
    keys = rng.sample(KEYS, rng.randrange(1, 5) if rng.random() < 0.8 else rng.randrange(5, 11))
    for key in keys:
        if rng.random() < 0.3:
            lines.append(f"# {rng.choice(['Above doc', 'Más texto ñ', 'over ' + key])}")
        side = f" # {rng.choice(['Side doc', 'Über ' + key, '日本 doc', 'lower case'])}" if rng.random() < 0.6 else ""
        r = rng.random()
        if r < 0.5:
            lines.append(f"{key}: {rng.choice(['1', 'text', '2.5', 'true', 'null'])}{side}")
        elif r < 0.75:
            lines.append(f"{key}:{side}")
            for sub in rng.sample(KEYS, 2):
                lines.append(f"  {sub}: {rng.choice(['1', 'z'])}{' # sub ' + sub if rng.random() < 0.5 else ''}")
        else:
            lines.append(f"{key}:{side}")
            for _ in range(2):
                lines.append(f"  - {rng.choice(['1', 'z', '2.5'])}")
    return "\n".join(lines) + "\n"


COMMENTS = ["side", "above", "below", None, ["side", "above"], ["below", "side"], ["side"]]
