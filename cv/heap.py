"""Regions, pointers, states."""
from .terms import *
import itertools

class Unsupported(Exception): pass
class PathLimit(Unsupported): pass

class Ptr:
    __slots__ = ("rid", "off", "path")
    def __init__(self, rid, off=0, path=""):
        self.rid, self.off, self.path = rid, off, path
    def __repr__(self): return "NULL" if self.rid is None else "Ptr(%s+%s%s)" % (self.rid, self.off, "." + self.path if self.path else "")
NULL = Ptr(None)
class Fn:
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __repr__(self): return "Fn(%s)" % self.name
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)
class Any_:
    """unspecified value (compares equal to anything)"""
    def __repr__(self): return "ANY"
ANY = Any_()

class Region:
    __slots__ = ("rid", "kind", "ctype", "length", "origin", "name", "bytes", "alloc", "zero", "lenkey")
    # kind: struct | arr | raw | cell | str
    # origin: pre (caller's) | new (allocated by the code / contract) | stack | global
    def __init__(self, rid, kind, ctype, length, origin, name, nbytes=None, alloc=None):
        self.rid, self.kind, self.ctype, self.length, self.origin, self.name = rid, kind, ctype, length, origin, name
        self.bytes, self.alloc, self.zero = nbytes, alloc, False
    def __repr__(self): return "<%s %s %s:%s>" % (self.rid, self.kind, self.name, self.origin)

_rid = itertools.count(1)
class State:
    __slots__ = ("pc", "mem", "reg", "freed", "trace", "env", "ver", "bounded", "oom")
    def __init__(self):
        self.pc, self.mem, self.reg, self.freed, self.trace, self.env = [], {}, {}, frozenset(), (), {}
        self.ver = 0
        self.bounded = False; self.oom = False
    def clone(self):
        s = State.__new__(State)
        s.pc = list(self.pc); s.mem = dict(self.mem); s.reg = dict(self.reg); s.freed = self.freed
        s.trace = self.trace; s.env = dict(self.env); s.ver = self.ver; s.bounded = self.bounded; s.oom = self.oom
        return s
    def assume(self, c):
        if c is True: return self
        if isz(c):
            if z3.is_true(c): return self
            if z3.is_and(c):
                for x in c.children(): self.pc.append(x)
                return self
        self.pc.append(c)
        return self
    def new(self, kind, ctype, length, origin, name, nbytes=None, alloc=None):
        rid = next(_rid)
        self.reg[rid] = Region(rid, kind, ctype, length, origin, name, nbytes, alloc)
        return rid

def as_bool(v):
    if v is None: raise Unsupported("undefined condition")
    if isinstance(v, Ptr): return v.rid is not None
    if isinstance(v, Fn): return True
    if isinstance(v, bool): return v
    if isinstance(v, (int, float)): return v != 0
    if z3.is_bool(v): return v
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long() != 0, b.as_long() != 0
            if x and not y: return c
            if y and not x: return z3.Not(c)
            return x
        return simp(z3.If(c, lift(as_bool(a)), lift(as_bool(b))))
    if z3.is_int_value(v): return v.as_long() != 0
    return v != 0
def as_int(v):
    if isinstance(v, bool): return int(v)
    if isz(v) and z3.is_bool(v):
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v
def as_num(v, ctype):
    """coerce a scalar to the representation of a C type"""
    if isinstance(v, (Ptr, Fn, Any_)) or v is None: return v
    v = as_int(v)
    if ctype[0] == "float":
        if concrete(): return float(v)
        if not isz(v): return R(v)
        return z3.ToReal(v) if v.sort() == INT else v
    return v
def sort_of(ctype):
    return REAL if ctype[0] == "float" else INT
