"""structured config classes used by the harnesses"""
import pathlib
from dataclasses import dataclass, field
from enum import Enum
from typing import Any, Dict, List, Optional, Tuple, Union

import attr
from omegaconf import II, MISSING


class Color(Enum):
    RED = 1
    GREEN = 2
    BLUE = 3


class Height(Enum):
    SHORT = "short"
    TALL = "tall"


@dataclass
class Inner:
    x: int = 1
    y: str = "why"
    z: Optional[float] = None


@dataclass
class Inner2(Inner):
    w: bool = True


@dataclass
class Other:
    q: int = 7


@dataclass
class Typed:
    i: int = 3
    f: float = 2.5
    b: bool = True
    s: str = "str"
    by: bytes = b"bin"
    p: pathlib.Path = pathlib.Path("a/b")
    c: Color = Color.RED
    oi: Optional[int] = None
    os: Optional[str] = "opt"
    oc: Optional[Color] = Color.GREEN
    u: Union[int, str] = 5
    ou: Optional[Union[float, bool]] = None
    a: Any = "any"
    m: int = MISSING
    inner: Inner = field(default_factory=Inner)
    oinner: Optional[Inner] = None
    li: List[int] = field(default_factory=lambda: [1, 2, 3])
    ls: List[str] = field(default_factory=lambda: ["a", "b"])
    lo: List[Optional[int]] = field(default_factory=lambda: [1, None])
    ol: Optional[List[int]] = None
    lin: List[Inner] = field(default_factory=lambda: [Inner(x=5)])
    ll: List[List[int]] = field(default_factory=lambda: [[1], [2, 3]])
    d: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    de: Dict[Color, float] = field(default_factory=lambda: {Color.RED: 0.5})
    di: Dict[int, str] = field(default_factory=lambda: {1: "one"})
    dn: Dict[str, Inner] = field(default_factory=lambda: {"n": Inner(x=9)})
    dd: Dict[str, Dict[str, int]] = field(default_factory=lambda: {"o": {"i": 1}})
    dl: Dict[str, List[int]] = field(default_factory=lambda: {"l": [4]})
    od: Optional[Dict[str, int]] = None


@dataclass
class Small:
    n: int = 10
    name: str = "small"
    inner: Inner = field(default_factory=Inner)
    items: List[int] = field(default_factory=lambda: [1, 2])
    opts: Dict[str, int] = field(default_factory=lambda: {"a": 1})


@dataclass
class WithInter:
    host: str = "localhost"
    port: int = 80
    url: str = "http://${host}:${port}"
    port2: int = II("port")
    sport: str = II("port")
    inner: Inner = field(default_factory=lambda: Inner(y="${host}"))
    ref: Any = II("inner.x")
    rel: int = II(".port")


@dataclass(frozen=True)
class Frozen:
    x: int = 1
    d: Dict[str, int] = field(default_factory=lambda: {"a": 1})
    l: List[int] = field(default_factory=lambda: [1])
    inner: Inner = field(default_factory=Inner)


@attr.s(auto_attribs=True)
class AttrC:
    x: int = 1
    y: Optional[str] = None
    inner: Inner = attr.Factory(Inner)
    l: List[int] = attr.Factory(lambda: [1, 2])


@attr.s(auto_attribs=True, frozen=True)
class AttrFrozen:
    x: int = 1
    l: List[int] = attr.Factory(lambda: [1, 2])


@dataclass
class NonInit:
    a: int = 1
    b: int = field(default=2, init=False)


@dataclass
class Nested:
    small: Small = field(default_factory=Small)
    lst: List[Small] = field(default_factory=lambda: [Small(n=1), Small(n=2)])
    dct: Dict[str, Small] = field(default_factory=lambda: {"s": Small(n=3)})


@dataclass
class MissingInner:
    inner: Inner = MISSING
    l: List[int] = MISSING
    d: Dict[str, int] = MISSING
    x: int = MISSING
    ok: int = 1
