"""Fresh images of the package: what a new process would have in memory after importing it."""
from __future__ import annotations

import builtins
import importlib
import importlib.machinery
import os
import sys
import types

import core

PREFIXES = ("lazy_type_hint", "check_code")


class _Loader:
    def __init__(self, factory, image, path, is_package):
        self.factory = factory
        self.image = image
        self.path = path
        self.is_package_ = is_package

    def create_module(self, spec):
        return None

    def get_source(self, name):
        return self.factory.source(self.path)

    def is_package(self, name):
        return self.is_package_

    def get_filename(self, name):
        return self.path

    def exec_module(self, module):
        module.__dict__["__builtins__"] = self.image.builtins
        exec(self.factory.code(self.path), module.__dict__)  # noqa: S102


class _Finder:
    """First finder of `sys.meta_path`: Modules of the package under test, always from the simulated world."""

    def __init__(self, factory):
        self.factory = factory

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in PREFIXES:
            return None
        image = self.factory.current
        if image is None:
            return None
        base = os.path.join(self.factory.pkg, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            location = os.path.join(base, "__init__.py")
            spec = importlib.machinery.ModuleSpec(
                name, _Loader(self.factory, image, location, True), origin=location, is_package=True
            )
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + ".py"):
            location = base + ".py"
            spec = importlib.machinery.ModuleSpec(
                name, _Loader(self.factory, image, location, False), origin=location
            )
        elif os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        else:
            return None
        spec.has_location = True
        return spec


class Image:
    def __init__(self, factory, ids=None):
        self.factory = factory
        self.modules = {}
        dct = dict(vars(builtins))
        dct["open"] = core.sim_open
        if ids is not None:
            dct["id"] = ids.get
            dct["hash"] = ids.hash
        self.builtins = types.ModuleType("builtins")
        self.builtins.__dict__.update(dct)
        self.builtins = self.builtins.__dict__

    def __enter__(self):
        """Its modules are the ones of `sys.modules`."""
        self.previous = self.factory.current
        if self.previous is self:
            return self
        self.factory.swap(self)
        return self

    def __exit__(self, *args):
        if self.previous is not self:
            self.factory.swap(self.previous)

    def load(self, name):
        with self, core.lock_context():
            return importlib.import_module(name)

    # Public API of the package
    @property
    def live(self):
        return self.modules["lazy_type_hint"].LazyTypeHintLive

    @property
    def lazy(self):
        return self.modules["lazy_type_hint"].LazyTypeHint

    @property
    def strategies(self):
        return self.modules["lazy_type_hint"].ParsingStrategies

    def module(self, name):
        return self.modules.get(name) or self.load(name)


class Factory:
    def __init__(self, pkg):
        self.pkg = pkg
        self.codes = {}
        self.sources = {}
        self.current = None
        self.count = 0
        sys.meta_path.insert(0, _Finder(self))

    def source(self, path):
        if path not in self.sources:
            self.sources[path] = core.World.read(path).decode("utf-8")
        return self.sources[path]

    def code(self, path):
        if path not in self.codes:
            self.codes[path] = compile(self.source(path), path, "exec", dont_inherit=True)
        return self.codes[path]

    def _own(self):
        return [name for name in sys.modules if name.split(".")[0] in PREFIXES]

    def swap(self, image):
        own = {name: sys.modules.pop(name) for name in self._own()}
        if self.current is not None:
            self.current.modules = own
        self.current = image
        if image is not None:
            sys.modules.update(image.modules)

    def new(self, ids=None, *, load="lazy_type_hint"):
        """Image of a new process (the modules are executed again)."""
        self.count += 1
        image = Image(self, ids)
        with image:
            if load:
                image.load(load)
            image.modules = {name: sys.modules[name] for name in self._own()}
        return image
