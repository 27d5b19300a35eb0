"""Functions and classes used as data. They live in a file because their source code is inspected."""
import array
import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import pathlib
import re
import uuid
from collections import namedtuple


def no_args() -> None:
    ...


def typed(a: int, b: str = "x") -> float:
    return 1.0


def untyped(a, b):
    return a


def untyped_no_return(a, *args, **kwargs):
    pass


def typed_list(a: "list[int]", *, flag: bool = False) -> "list[str]":
    return []


def accented(año: "int" = 1, *, día: str = "日本 😀") -> "list[str]":
    """Documentación ñ."""
    return [día]


class Custom:
    def method(self, a: int) -> str:
        return ""

    @staticmethod
    def static(x: float) -> int:
        return 1


class Other:
    pass


class Reading:
    """Custom class with an equality that does not match its identity."""

    def __init__(self, value=0):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Reading) and other.value == self.value

    def __hash__(self):
        return 7


Point = namedtuple("Point", "x y")


class Color(enum.Enum):
    RED = 1
    BLUE = "b"


class Level(enum.IntEnum):
    LOW = 1


@dataclasses.dataclass
class Record:
    a: int = 1
    b: list = dataclasses.field(default_factory=lambda: [1, "x"])


class SubDict(dict):
    pass


class SubList(list):
    pass


class SubStr(str):
    pass


class SubTuple(tuple):
    pass


class SubSet(set):
    pass


class Slots:
    __slots__ = ("a",)

    def __init__(self):
        self.a = 1

    @classmethod
    def make(cls, a: int) -> "Slots":
        return cls()


async def coroutine(a: int) -> str:
    return ""


def generator_function(a):
    yield a


def defaults(a: "int" = 3, /, b=(1, 2), *, c=None) -> "dict[str, int]":
    return {}


def _twins():
    def twin(a: int) -> str:
        return ""

    class Twin:
        def method(self) -> int:
            return 1

    def plain(a):
        return a

    return twin, Twin, lambda a: a, plain


def _other_twins():
    def twin(b: str, c: float = 1.0) -> "list[int]":
        return []

    class Twin(dict):
        pass

    def plain(a):
        a.clear()

    return twin, Twin, lambda b, c=1: b, plain


# Different things with the same name and module
TWINS = (_twins(), _other_twins())
for _thing in (*TWINS[1][:2], TWINS[1][3]):
    _thing.__qualname__ = _thing.__qualname__.replace("_other_", "_")

TWIN_NAMES = ["twinfunc", "twin", "twinlambda", "twinplain"]
OBJECTS = {
    "twinplain": lambda: TWINS[0][3],
    "othertwinplain": lambda: TWINS[1][3],
    "twinfunc": lambda: TWINS[0][0],
    "othertwinfunc": lambda: TWINS[1][0],
    "twin": lambda: TWINS[0][1](),
    "othertwin": lambda: TWINS[1][1](a=1),
    "twinlambda": lambda: TWINS[0][2],
    "othertwinlambda": lambda: TWINS[1][2],
    "datetime": lambda: datetime.datetime(2020, 1, 1),
    "date": lambda: datetime.date(2020, 1, 1),
    "timedelta": lambda: datetime.timedelta(1),
    "decimal": lambda: decimal.Decimal(1),
    "fraction": lambda: fractions.Fraction(1, 2),
    "path": lambda: pathlib.PurePosixPath("a"),
    "uuid": lambda: uuid.UUID(int=1),
    "enum": lambda: Color.RED,
    "intenum": lambda: Level.LOW,
    "enumtype": lambda: Color,
    "record": Record,
    "counter": lambda: collections.Counter("aab"),
    "chainmap": lambda: collections.ChainMap({"a": 1}, {"b": "x"}),
    "subdict": lambda: SubDict(a=1, b=[1]),
    "sublist": lambda: SubList([1, "a"]),
    "substr": lambda: SubStr("a"),
    "subtuple": lambda: SubTuple((1, "a")),
    "subset": lambda: SubSet({1}),
    "bytearray": lambda: bytearray(b"ab"),
    "memoryview": lambda: memoryview(b"ab"),
    "array": lambda: array.array("i", [1, 2]),
    "partial": lambda: functools.partial(int, base=2),
    "slots": Slots,
    "classmethod": lambda: Slots.make,
    "coroutine": lambda: coroutine,
    "genfunc": lambda: generator_function,
    "defaults": lambda: defaults,
    "pattern": lambda: re.compile("a"),
    "ellipsis": lambda: ...,
    "keys": lambda: {"a": 1}.keys(),
    "property": lambda: property(no_args),
    "frozen": lambda: frozenset({(1, "a")}),
}

FUNCTIONS = {
    "no_args": no_args,
    "typed": typed,
    "untyped": untyped,
    "untyped_no_return": untyped_no_return,
    "typed_list": typed_list,
    "accented": accented,
    "method": Custom().method,
    "len": len,
}
LAMBDAS = [lambda: 1, lambda a: a, lambda a, b: a]
TYPES = {"int": int, "str": str, "dict": dict, "Custom": Custom, "Other": Other}
INSTANCES = {"Custom": Custom, "Other": Other, "Reading": Reading}
