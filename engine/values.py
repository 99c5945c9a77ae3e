"""Values and memory of ldtvc."""
import struct, z3
from fractions import Fraction
from terms import *
import terms as T

class D:
    """extended real: nan / +inf / -inf flags and a real value (no rounding)"""
    __slots__ = ('nan', 'pi', 'ni', 'v')
    def __init__(self, v, nan=False, pi=False, ni=False):
        self.v = v; self.nan = nan; self.pi = pi; self.ni = ni
    def fin(self):
        return self.nan is False and self.pi is False and self.ni is False
    def finc(self):
        return b_not(b_or(self.nan, self.pi, self.ni))
    def __repr__(self):
        return 'D(%r%s)' % (self.v, '' if self.fin() else ',%s,%s,%s' % (self.nan, self.pi, self.ni))
    def key(self):
        return (pkey(self.v), bkey(self.nan), bkey(self.pi), bkey(self.ni))

def bkey(b):
    return b if b is True or b is False else b.get_id()

def d_const(bits):
    f = struct.unpack('<d', struct.pack('<Q', bits))[0]
    if f != f: return D(0, nan=True)
    if f == INF: return D(0, pi=True)
    if f == -INF: return D(0, ni=True)
    return D(_frac(f))
def _frac(f):
    x = Fraction(f)
    if x.denominator == 1: return int(x)
    # decimal literals such as 0.1 are taken at their decimal value
    d = Fraction(repr(f))
    return d

class Ptr:
    __slots__ = ('obj', 'off', 'st')
    def __init__(self, obj, off=0, st=None):
        self.obj = obj; self.off = off; self.st = st
    def __repr__(self): return 'Ptr(%s+%r)' % (self.obj, self.off)
    def key(self): return ('p', self.obj, pkey(self.off))
NULL = Ptr(0, 0)

class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def key(self): return ('f', self.name)

class Agg:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
class PInt:
    """pointer cast to integer"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class Undef:
    def key(self): return ('undef',)
UNDEF = Undef()

def vkey(v):
    if isinstance(v, (D, Ptr, Fn, Undef)): return v.key()
    if isinstance(v, Poly): return v.key()
    if isinstance(v, (bool, int, Fraction)): return v
    if isinstance(v, Agg): return tuple(vkey(x) for x in v.e)
    if isinstance(v, z3.BoolRef): return ('b', v.get_id())
    return id(v)

# ------------------------------------------------------------------ arrays
class Arr:
    """immutable array value: chain of updates over a base"""
    __slots__ = ('kind', 'prev', 'a', 'b', 'c', 'd', 'ety', 'id', 'depth')
    N = [0]
    def __init__(self, kind, ety, prev=None, a=None, b=None, c=None, d=None):
        self.kind = kind; self.ety = ety; self.prev = prev; self.a = a; self.b = b; self.c = c; self.d = d
        Arr.N[0] += 1; self.id = Arr.N[0]
        self.depth = (prev.depth + 1) if prev else 0

def arr_base(ety, name, nan=False, lo=None, hi=None, pos=False, inf=False):
    """fresh unconstrained base array; ety in 'double','i8','i32','i64','i1'"""
    n = fresh_name(name)
    if ety == 'double':
        f = z3.Function(n, z3.IntSort(), z3.IntSort() if pos == 'int' else z3.RealSort())
        g = z3.Function(n + '.nan', z3.IntSort(), z3.BoolSort()) if nan else None
        gi = (z3.Function(n + '.pi', z3.IntSort(), z3.BoolSort()), z3.Function(n + '.ni', z3.IntSort(), z3.BoolSort())) if inf else None
        return Arr('base', ety, a=f, b=g, c=(lo, hi, pos), d=gi)
    if ety == 'ptr' or not ety.startswith('i'):
        raise Unsupported('array of ' + ety)
    f = z3.Function(n, z3.IntSort(), z3.IntSort())
    w = int(ety[1:])
    if lo is None: lo = -(1 << (w - 1)); hi = (1 << (w - 1)) - 1
    dyn = None
    if not isconst(hi): dyn = hi; hi = (1 << (w - 1)) - 1
    if dyn is not None: return Arr('base', ety, a=f, b=dyn, c=(lo, hi))
    return Arr('base', ety, a=f, c=(lo, hi))

def arr_const(ety, v):
    return Arr('const', ety, a=v)

def base_read(A, i):
    zi = zint(i)
    if A.ety == 'double':
        lo, hi, pos = A.c
        t = A.a(zi)
        at = mk_atom(t, 'i' if pos == 'int' else 'r', lo, hi, meta=('arr', A, i))
        if pos is True and not at.facts: at.facts.append(t > 0)
        nan = A.b(zi) if A.b is not None else False
        pi = ni = False
        if A.d is not None:
            pi = z3.And(A.d[0](zi), z3.Not(nan) if nan is not False else True); ni = z3.And(A.d[1](zi), z3.Not(A.d[0](zi)), z3.Not(nan) if nan is not False else True)
        return D(Poly.atom(at), nan=nan, pi=pi, ni=ni)
    t = A.a(zi)
    at = mk_atom(t, 'i', A.c[0], A.c[1], meta=('arr', A, i))
    if A.b is not None and not at.facts: at.facts.append(t <= zint(A.b))
    return Poly.atom(at)

def v_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b or vkey(a) == vkey(b): return a
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isinstance(a, D) and isinstance(b, D):
        return D(ite_r(c, a.v, b.v), b_ite(c, a.nan, b.nan), b_ite(c, a.pi, b.pi), b_ite(c, a.ni, b.ni))
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return b_ite(c, a, b)
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
        return ite_i(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return Ptr(a.obj, ite_i(c, a.off, b.off), a.st or b.st)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg([v_ite(c, x, y) for x, y in zip(a.e, b.e)])
    raise NeedFork(c)

class NeedFork(Exception):
    def __init__(self, c): self.c = c

def arr_store(A, i, v):
    # drop an immediately shadowed store
    if A.kind == 'store' and pkey(A.a) == pkey(i): A = A.prev
    return Arr('store', A.ety, A, a=i, b=v)

def arr_copy(A, lo, hi, src, shift):
    """A with [lo,hi) taken from src[k+shift]"""
    return Arr('copy', A.ety, A, a=lo, b=hi, c=src, d=shift)

def arr_fill(A, lo, hi, v):
    return Arr('fill', A.ety, A, a=lo, b=hi, c=v)

def arr_read(A, i, decide=None):
    """decide(cond)->True/False/None consults the path condition"""
    conds = []
    while True:
        k = A.kind
        if k == 'base': r = base_read(A, i); break
        if k == 'const': r = A.a; break
        if k == 'store':
            c = cmp('==', i, A.a)
            if c is not True and c is not False and decide is not None:
                d = decide(c)
                if d is not None: c = d
            if c is True: r = A.b; break
            if c is not False: conds.append((c, A.b))
            A = A.prev; continue
        c = b_and(cmp('<=', A.a, i), cmp('<', i, A.b))
        if c is not True and c is not False and decide is not None:
            d = decide(c)
            if d is not None: c = d
        if c is False: A = A.prev; continue
        x = A.c if k == 'fill' else arr_read(A.c, padd(i, A.d), decide)
        if c is True: r = x; break
        conds.append((c, x)); A = A.prev
    for c, x in reversed(conds):
        r = v_ite(c, x, r)
    return r

def arr_default(ety, name):
    if ety == 'ptr' or not (ety == 'double' or ety.startswith('i')): return Arr('const', ety, a=UNDEF)
    return arr_base(ety, name, nan=(ety == 'double'), inf=(ety == 'double'))

# ------------------------------------------------------------------ objects
TSIZE = {'double': 8, 'float': 4, 'ptr': 8, 'i64': 8, 'i32': 4, 'i16': 2, 'i8': 1, 'i1': 1, 'x86_fp80': 16, 'i128': 16}
def tsize(t):
    if isinstance(t, list):
        if t[0] == 'struct': return max([o + tsize(x) for o, x in t[1:]] + [0])
        if t[0] == 'array': return t[1] * t[2]
        if t[0] == 'vector': return t[1] * tsize(t[2])
    if t in TSIZE: return TSIZE[t]
    raise Unsupported('size of %s' % (t,))

class Obj:
    """contents of one allocation (copy on write)"""
    __slots__ = ('id', 'name', 'size', 'cells', 'arrs', 'stride', 'freed', 'kind', 'zero', 'const')
    def __init__(self, id, name, size, kind):
        self.id = id; self.name = name; self.size = size; self.kind = kind
        self.cells = {}; self.arrs = {}; self.stride = None; self.freed = False; self.zero = False; self.const = False
    def copy(self):
        o = Obj(self.id, self.name, self.size, self.kind)
        o.cells = dict(self.cells); o.arrs = dict(self.arrs); o.stride = self.stride; o.freed = self.freed; o.zero = self.zero; o.const = self.const
        return o
