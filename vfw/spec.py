"""The contract language: Python declarations holding WhyML formulas."""
from __future__ import annotations

from dataclasses import dataclass, field
from vfw.ptypes import *  # noqa: F401,F403


@dataclass
class Loop:
    inv: list = field(default_factory=list)  # formulas or (label, formula)
    var: str | None = None


@dataclass
class Fn:
    module: str  # python module below gaspra, e.g. "serialize"
    qual: str  # qualified name in the module
    params: dict  # name -> type
    ret: tuple
    requires: list = field(default_factory=list)
    ensures: list = field(default_factory=list)
    raises: dict = field(default_factory=dict)
    variant: str | None = None
    loops: dict = field(default_factory=dict)
    hints: dict = field(default_factory=dict)
    locals: dict = field(default_factory=dict)
    ghosts: dict = field(default_factory=dict)
    theories: list = field(default_factory=list)
    mutates: list = field(default_factory=list)  # parameters changed in place
    writes: list = field(default_factory=list)  # WhyML write effects
    kind: str = "generic"
    classes: dict = field(default_factory=dict)  # class name -> constructor
    uses: list = field(default_factory=list)  # contract names of callees (documentation only)
    rec: bool = False
    genexc: dict = field(default_factory=dict)  # python exception -> WhyML exception carrying output
    views: dict = field(default_factory=dict)
    extern: bool = False  # trusted contract, no body verified
    diverges: bool = False
    pre: str = ""  # extra WhyML declarations
    vpre: str = ""
    transform: str = "split_vc"
    rounds: list | None = None
    vname: str | None = None
    key: str | None = None
    selftype: tuple | None = None
    note: str = ""
    inline: list = field(default_factory=list)
    flat: bool = False
    gen: bool | None = None
    ghost_params: list = field(default_factory=list)
    ghost_args: dict = field(default_factory=dict)  # ghost parameter of callees -> term
    lits: str = ""
    defaults: dict = field(default_factory=dict)  # WhyML default values (function values only)
    cells: dict = field(default_factory=dict)  # local list -> (WhyML place, type): shared with a function value
    client: dict = field(default_factory=dict)  # callee -> name of the contract to use instead
    baseline_locals: list = field(default_factory=list)
    free: list = field(default_factory=list)  # parameters that are variables of the enclosing function
    kwargs: dict = field(default_factory=dict)  # ** parameter -> names of the keywords given
    impl: list = field(default_factory=list)  # functions a function value may stand for (verified separately)

    @property
    def name(self):
        return self.key or f"{self.module}.{self.qual}"

    @property
    def why(self):
        return self.vname or (self.module + "__" + self.qual.replace(".", "__")).replace("____", "__u_").replace("<fn>", "fnval").replace("<gen>", "genval").replace("<region>", "region")


@dataclass
class Family:
    """A WhyML algebraic type standing for one or several Python classes."""

    name: str
    ctors: dict  # python class -> (WhyML constructor, [(field, type)])
    inject: dict = field(default_factory=dict)  # type -> (constructor, projector, tester)
    auto: bool = True
    truthy: str | None = None  # program function for truth value; None: always true
    fields: dict = field(default_factory=dict)  # field -> type (accessors get_<fam>_<field>)
    home: dict = field(default_factory=dict)  # python class -> module where it is defined
    kindtest: str | None = None
    keys: dict = field(default_factory=dict)  # a dictionary with fixed text keys: key -> type (OPT: may be missing), a WhyML record
    mapping: tuple | None = None  # a function value: the type of its parameter (the result is a text)


@dataclass
class Record:
    """A mutable object: a WhyML record with mutable fields."""

    name: str
    cls: str
    module: str
    fields: dict
    eq: str | None = None


@dataclass
class ObjClass:
    """Heap objects with identity (fields live in the global heap h)."""

    name: str
    cls: str
    module: str
    fields: dict
    logic: dict = field(default_factory=dict)  # field -> WhyML term of a node {}
    shared: list = field(default_factory=list)  # mutable fields held by reference


@dataclass
class TokClass:
    """Objects that serve as tokens only: a plain frozen data class, equal to nothing of another type."""

    cls: str
    module: str
    ctor: str  # WhyML function of the fields
    test: str
    fields: list


FNS: dict[str, Fn] = {}
FAMILIES: dict[str, Family] = {}
RECORDS: dict[str, Record] = {}
OBJS: dict[str, ObjClass] = {}
TOKENS: dict[str, TokClass] = {}


def fn(module, qual, **kw):
    f = Fn(module, qual, **kw)
    assert f.name not in FNS, f.name
    FNS[f.name] = f
    return f


def family(name, **kw):
    FAMILIES[name] = Family(name, **kw)
    return FAMILIES[name]


def record(name, **kw):
    RECORDS[name] = Record(name, **kw)


def objclass(name, **kw):
    OBJS[name] = ObjClass(name, **kw)


def tokclass(cls, module, **kw):
    TOKENS[cls] = TokClass(cls, module, **kw)
