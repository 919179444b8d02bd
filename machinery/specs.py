"""The units (functions under contract) of every property."""
import os
from dataclasses import dataclass, field


@dataclass
class U:
    name: str
    file: str                       # harness source, under harness/
    entry: str                      # harness function
    functions: list                 # functions of /repo whose contract this unit checks
    mode: str = "bounded"           # contract | complete | bounded
    src: list = field(default_factory=list)
    unwind: int = 8                 # deciding stage
    unwindB: int = 10               # bounded counterexample stage (contract mode)
    unwind_t: int = 0               # thorough
    bound: int = 4
    bound_t: int = 0
    native_bound: int = 12
    bound_text: str = ""
    defs: list = field(default_factory=list)
    replace: list = field(default_factory=list)
    stubs: list = field(default_factory=list)
    cbmc: list = field(default_factory=list)
    unwindset: list = field(default_factory=list)
    libc: bool = True
    loops: bool = True
    timeout: int = 200
    search: int = 8
    weight: int = 1
    sat: str = ""


@dataclass
class P:
    units: list
    level: str = "proof"
    trusted: list = field(default_factory=list)
    assumptions: list = field(default_factory=list)
    note: str = ""


TRUSTED = [
    "goto-cc C front end, goto-instrument loop-contract instrumentation, cbmc 6.11 SAT back end",
    "machinery/vf_libc.c and cbmc's built-in models of the C library (POSIX locale)",
    "config.h, paths.h and the generated cf_*.c as produced by the repository's build",
]

PROPS = {}


def known_findings(verif):
    """entries '<property> <text>' of known_findings.txt, except the fixed ones"""
    out = []
    p = os.path.join(verif, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("property="):
                a, b = l[len("property="):].split(" ", 1)
                out.append((a, b))
    return out


def load():
    import importlib
    import pkgutil
    from . import props
    for m in pkgutil.iter_modules(props.__path__):
        mod = importlib.import_module("machinery.props." + m.name)
        PROPS.update(mod.PROPS)


load()
