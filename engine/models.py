"""Meaning of the contract vocabulary, intrinsics and library functions.

Everything in this file is part of the trusted base of the proofs; the check
lists the entries it used in its evidence file (TRUSTED below).
"""
import re, z3
from fractions import Fraction
from terms import *
from values import *
import terms as T

TABLE = []          # (regex on demangled name or raw name, handler, trusted description or None)
_cache = {}
def model(rx, desc=None):
    def d(fn):
        TABLE.append((re.compile(rx), fn, desc)); return fn
    return d

def find(f):
    n = f['name']
    if n in _cache: return _cache[n]
    r = None
    for rx, fn, desc in TABLE:
        if rx.match(f['dem']) or rx.match(n):
            r = fn
            if desc is not None:
                def r(E, st, fr, ins, f, args, fn=fn, desc=desc):
                    E.trusted.add(desc); return fn(E, st, fr, ins, f, args)
            break
    _cache[n] = r
    return r

def V(x): return ('val', x)
NOP = ('val', None)

def atom_id(p): return list(p.d)[0][0]

# ----------------------------------------------------------- vocabulary
@model(r'^vc_(int|size)$')
def vc_int(E, st, fr, ins, f, a):
    lo, hi = a
    if isconst(lo) and isconst(hi):
        if lo == hi: st.tape.append(('i', lo)); return V(lo)
        v = new_int('in', int(lo), int(hi))
    else:
        l = interval(lo)[0]; h = interval(hi)[1]
        v = new_int('in', None if l == -INF else int(l), None if h == INF else int(h))
        st.pc += [x for x in (cmp('>=', v, lo), cmp('<=', v, hi)) if x is not True]
    st.tape.append(('i', v))
    return V(v)

@model(r'^vc_real$')
def vc_real(E, st, fr, ins, f, a):
    v = new_real('x'); st.tape.append(('r', v)); return V(D(v))
@model(r'^vc_posreal$')
def vc_posreal(E, st, fr, ins, f, a):
    v = new_real('x', lo=0); at = T.ATOMS[atom_id(v)]; at.facts.append(at.z > 0)
    st.tape.append(('r', v)); return V(D(v))
@model(r'^vc_real_nan$')
def vc_real_nan(E, st, fr, ins, f, a):
    v = D(new_real('x'), new_bool('isnan')); st.tape.append(('d', v)); return V(v)
@model(r'^vc_real_ext$')
def vc_real_ext(E, st, fr, ins, f, a):
    n = new_bool('isnan'); p = new_bool('ispinf'); m = new_bool('isninf')
    v = D(new_real('x'), n, z3.And(p, z3.Not(n)), z3.And(m, z3.Not(p), z3.Not(n))); st.tape.append(('d', v)); return V(v)
@model(r'^vc_bool$')
def vc_bool(E, st, fr, ins, f, a):
    v = new_bool('b'); st.tape.append(('b', v)); return V(v)

def _array(E, st, n, ety, code, **kw):
    esz = {'double': 8, 'i32': 4}[ety]
    i = E.new_obj(st, 'input', pscale(n, esz), 'input')
    o = st.mem[i]; o.stride = esz
    A = arr_base(ety, 'a', **kw)
    o.arrs[0] = (esz, A)
    c = cmp('>=', n, 0)
    if c is not True: st.pc.append(zb(c))
    st.tape.append((code, n, A))
    return V(Ptr(i, 0, esz))
@model(r'^vc_array$')
def vc_array(E, st, fr, ins, f, a): return _array(E, st, a[0], 'double', 'A')
@model(r'^vc_array_nan$')
def vc_array_nan(E, st, fr, ins, f, a): return _array(E, st, a[0], 'double', 'N', nan=True)
@model(r'^vc_array_pos$')
def vc_array_pos(E, st, fr, ins, f, a): return _array(E, st, a[0], 'double', 'P', pos=True, lo=0)
@model(r'^vc_array_class$')
def vc_array_class(E, st, fr, ins, f, a): return _array(E, st, a[0], 'double', 'N', nan=True, pos='int', lo=0, hi=int(a[1]))
@model(r'^vc_iarray$')
def vc_iarray(E, st, fr, ins, f, a): return _array(E, st, a[0], 'i32', 'I', lo=int(a[1]), hi=a[2])

@model(r'^vc_assume$')
def vc_assume(E, st, fr, ins, f, a):
    c = a[0]
    if c is False: return ('prune',)
    if c is not True: st.pc.append(zb(c))
    return NOP
def cstr(E, st, p):
    if not isinstance(p, Ptr): return '?'
    o = st.mem[p.obj]; out = []
    k = int(p.off)
    while True:
        c = o.cells.get(k)
        if c is None: break
        v = c[1]
        if isinstance(v, tuple): v = E.const_operand(st, v[1])
        if v == 0: break
        out.append(chr(v & 255)); k += 1
    return ''.join(out)
@model(r'^vc_ensure$')
def vc_ensure(E, st, fr, ins, f, a):
    c = a[0]
    if isinstance(c, Undef): raise Unsupported('ensure on undefined value')
    if isinstance(c, (int, Poly)) and not isinstance(c, bool): c = int_bool(c)
    E.oblige(st, c, cstr(E, st, a[1]), ins)
    return NOP
@model(r'^vc_cover$')
def vc_cover(E, st, fr, ins, f, a):
    n = cstr(E, st, a[0])
    if E.quiet: return NOP
    if not E.covers.get(n):
        r, m = query(list(st.pc), 3000, level=2)
        E.covers[n] = r != 'unsat'
    return NOP
def snap(p, q):
    """q with coefficients that differ from those of p only by the rounding of constants replaced"""
    if isconst(p) and isconst(q):
        return p if p != q and abs(Fraction(p) - Fraction(q)) <= Fraction(1, 10**13) * abs(Fraction(p)) else q
    if isconst(p) or isconst(q): return q
    ch = False; d = dict(q.d)
    for m, c in p.d.items():
        e = d.get(m)
        if e is not None and e != c and abs(Fraction(c) - Fraction(e)) <= Fraction(1, 10**13) * abs(Fraction(c)): d[m] = c; ch = True
    return Poly(d) if ch else q
@model(r'^vc_same$')
def vc_same(E, st, fr, ins, f, a):
    x, y = [E.fresh_of('double') if v is UNDEF else v for v in a]
    y = D(snap(x.v, y.v), y.nan, y.pi, y.ni)
    c = b_or(b_and(x.nan, y.nan), E.feq(x, y))
    return V(c)
@model(r'^vc_le$')
def vc_le(E, st, fr, ins, f, a):
    x, y = [E.fresh_of('double') if v is UNDEF else v for v in a]
    return V(E.fcmp('ole', x, y))
@model(r'^vc_symbolic$')
def vc_symbolic(E, st, fr, ins, f, a): return V(True)
@model(r'^vc_bounded$')
def vc_bounded(E, st, fr, ins, f, a):
    st.bounded = True; E.boundedloops += 1; return NOP
@model(r'^vc_pin$')
def vc_pin(E, st, fr, ins, f, a):
    x = a[0]
    if isconst(x): return V(x)
    for v in range(int(a[1]), int(a[2])):
        c = cmp('==', x, v)
        d = c if c in (True, False) else E.decide(st, c)
        if d is True: return V(v)
        if d is None: raise NeedFork(c)
    return V(int(a[2]))
@model(r'^vc_ctx$')
def vc_ctx(E, st, fr, ins, f, a): st.ctx = a[0]; return NOP
@model(r'^vc_ghost$')
def vc_ghost(E, st, fr, ins, f, a): st.ghost = st.ghost + [a[0]]; return NOP
@model(r'^vc_frame$')
def vc_frame(E, st, fr, ins, f, a): st.extra['frame'] = True; return NOP
@model(r'^vc_check_overflow$')
def vc_check_overflow(E, st, fr, ins, f, a): st.extra['overflow'] = True; return NOP

# ----------------------------------------------------------- spec functions
_SPECKEY = {}
SPECDEPTH = [0]
def mem_key(E, st, p):
    o = st.mem[p.obj]
    return (p.obj, pkey(p.off), tuple(sorted((f, s, A.id) for f, (s, A) in o.arrs.items())), tuple(sorted((k, s, vkey(v) if not isinstance(v, tuple) else str(v)) for k, (s, v) in o.cells.items())))

def spec_call(E, st, f, args):
    scal = []; keys = [f['name']]; allc = True
    for a in args:
        if isinstance(a, Ptr):
            if a.obj == 0: keys.append('null')
            else: keys.append(mem_key(E, st, a))
        elif isinstance(a, D):
            if not a.fin(): raise Unsupported('spec function on possibly non-finite value')
            scal.append(zreal(a.v)); allc = allc and isconst(a.v)
        elif isinstance(a, (bool, z3.BoolRef)): scal.append(zb(a)); allc = allc and isinstance(a, bool)
        elif isinstance(a, (int, Poly)): scal.append(zint(a)); allc = allc and isconst(a) and abs(a) <= 64
        else: raise Unsupported('spec argument')
    ret = f['ret']
    if allc:
        res = E.eval_pure(st, f, args)
        if len(res) == 1 and not res[0][0]: return res[0][1]
        if not res: raise Unsupported('spec evaluation')
        v = res[-1][1]
        for pcd, val, _ in reversed(res[:-1]): v = v_ite(b_and(*pcd), val, v)
        return v
    key = tuple(keys)
    n = _SPECKEY.setdefault((id(E), key), len(_SPECKEY))
    rs = z3.RealSort() if ret == 'double' else z3.IntSort()
    F = z3.Function('%s!%d' % (f['name'], n), *([s.sort() for s in scal] + [rs])) if scal else z3.Const('%s!%d' % (f['name'], n), rs)
    t = F(*scal) if scal else F
    at = T.AST2ATOM.get(t.get_id())
    d = SPECDEPTH[0]
    if at is None:
        if ret == 'double': at = mk_atom(t, 'r', meta=('spec', d))
        elif ret == 'i1': at = mk_atom(t, 'i', 0, 1, meta=('spec', d))
        else:
            w = int(ret[1:]); at = mk_atom(t, 'i', -(1 << (w - 1)), (1 << (w - 1)) - 1, meta=('spec', d))
        snap = st.copy(); snap.pc = []
        def thunk(at=at, snap=snap, f=f, args=args, ret=ret):
            old = SPECDEPTH[0]; SPECDEPTH[0] = at.meta[1] + 1
            try: res = E.eval_pure(snap, f, args)
            finally: SPECDEPTH[0] = old
            out = []
            for pcd, val, _ in res:
                if ret == 'double':
                    eq = cmp('==', Poly.atom(at), val.v); e = b_and(val.finc(), eq)
                    if not val.fin(): e = b_or(b_not(val.finc()), eq)
                elif ret == 'i1': e = (at.z != 0) == zb(val if isinstance(val, (bool, z3.BoolRef)) else int_bool(val))
                else: e = cmp('==', Poly.atom(at), val)
                out.append(zb(b_or(b_not(b_and(*pcd)), e)))
            return out
        at.facts.append(thunk)
    elif at.meta[1] > d:
        at.meta = ('spec', d); T._CS.clear()
    p = Poly.atom(at)
    if ret == 'double': return D(p)
    if ret == 'i1': return cmp('!=', p, 0)
    return p

# ----------------------------------------------------------- intrinsics
@model(r'^llvm\.(lifetime|experimental\.noalias|assume|dbg|invariant|donothing|prefetch|var\.annotation)')
def nop(E, st, fr, ins, f, a): return NOP
@model(r'^llvm\.expect')
def expect(E, st, fr, ins, f, a): return V(a[0])
@model(r'^llvm\.(memcpy|memmove)')
def memcpy(E, st, fr, ins, f, a): E.memcpy(st, a[0], a[1], a[2], ins); return NOP
@model(r'^llvm\.memset')
def memset(E, st, fr, ins, f, a): E.memset(st, a[0], a[1], a[2], ins); return NOP
@model(r'^(memcpy|memmove)$')
def memcpy2(E, st, fr, ins, f, a): E.memcpy(st, a[0], a[1], a[2], ins); return V(a[0])
@model(r'^memset$')
def memset2(E, st, fr, ins, f, a): E.memset(st, a[0], a[1], a[2], ins); return V(a[0])
@model(r'^llvm\.trap|^abort$|^std::terminate|^__clang_call_terminate')
def trap(E, st, fr, ins, f, a):
    E.oblige(st, False, 'no-abort', ins, kind='mem'); return ('prune',)
@model(r'^llvm\.abs\.|^abs$|^labs$')
def iabs(E, st, fr, ins, f, a):
    x = a[0]
    if isconst(x): return V(abs(x))
    s = E.sign(st, x)
    if s is not None: return V(x if s >= 0 else pscale(x, -1))
    r = ite_i(cmp('>=', x, 0), x, pscale(x, -1)); E.abs_iv(r, *interval(x))
    return V(r)
def imm(op, uns=False):
    def g(E, st, fr, ins, f, a):
        w = int(ins['ty'][1:])
        x, y = a
        X, Y = (E.unsigned(st, x, w), E.unsigned(st, y, w)) if uns else (x, y)
        return V(ite_i(cmp(op, X, Y), x, y))
    return g
@model(r'^llvm\.(ctlz|cttz|ctpop)\.i')
def bits(E, st, fr, ins, f, a):
    x = a[0]
    if not isconst(x): raise Unsupported('bit count of a symbolic word')
    op, w = re.match(r'^llvm\.(\w+)\.i(\d+)', f['name']).groups(); w = int(w); x = int(x) % (1 << w)
    if op == 'ctlz': return V(w - x.bit_length())
    if op == 'ctpop': return V(bin(x).count('1'))
    return V(w if x == 0 else (x & -x).bit_length() - 1)

TABLE.append((re.compile(r'^llvm\.smax'), imm('>='), None))
TABLE.append((re.compile(r'^llvm\.smin'), imm('<='), None))
TABLE.append((re.compile(r'^llvm\.umax'), imm('>=', True), None))
TABLE.append((re.compile(r'^llvm\.umin'), imm('<=', True), None))
@model(r'^llvm\.umul\.with\.overflow')
def umulo(E, st, fr, ins, f, a):
    E.assumptions.add('allocation sizes do not overflow 64 bits and are not negative')
    r = pmul(a[0], a[1])
    c = cmp('>=', r, 0)
    if c is not True and E.decide(st, c) is False: return V(Agg([r, True]))
    if isconst(r): return V(Agg([r, r < 0]))
    if c is not True and E.decide(st, c) is None: return V(Agg([r, b_not(c)]))
    return V(Agg([r, False]))
@model(r'^llvm\.(uadd|sadd|usub|ssub|smul)\.with\.overflow')
def addo(E, st, fr, ins, f, a):
    op = re.match(r'^llvm\.[us](\w+)\.with', f['name']).group(1)
    r = {'add': padd, 'sub': psub, 'mul': pmul}[op](a[0], a[1])
    return V(Agg([r, False]))
def fmm(op):
    def g(E, st, fr, ins, f, a):
        x, y = a
        if x.fin() and y.fin(): return V(D(ite_r(cmp(op, x.v, y.v), x.v, y.v)))
        lt = E.fcmp('olt' if op == '<=' else 'ogt', x, y)
        r = v_ite(lt, x, y)
        return V(v_ite(x.nan, y, v_ite(y.nan, x, r)))
    return g
TABLE.append((re.compile(r'^llvm\.maxnum|^fmax$'), fmm('>='), None))
TABLE.append((re.compile(r'^llvm\.minnum|^fmin$'), fmm('<='), None))
@model(r'^llvm\.fabs|^fabs$')
def fabs_(E, st, fr, ins, f, a):
    x = a[0]
    if isconst(x.v): v = abs(x.v)
    else:
        s = E.sign(st, x.v)
        if s is not None: v = x.v if s >= 0 else pscale(x.v, -1)
        else: v = ite_r(cmp('>=', x.v, 0), x.v, pscale(x.v, -1)); E.abs_iv(v, *interval(x.v))
    return V(D(v, x.nan, b_or(x.pi, x.ni), False))
def sqrt_poly(E, v, st=None):
    if isconst(v):
        import math
        if v >= 0:
            fr = Fraction(v); n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
            if n * n == fr.numerator and d * d == fr.denominator: 
                r = Fraction(n, d); return int(r) if r.denominator == 1 else r
    if st is not None and isinstance(v, Poly) and len(v.d) == 1:
        (m, c), = v.d.items()
        for i in m:
            mt = T.ATOMS[i].meta
            if mt and mt[0] in ('inv', 'invp'):
                b = Poly({(mt[1],): 1}) if mt[0] == 'inv' else mt[1]
                if E.decide(st, cmp('>', b, 0)) is True:
                    # sqrt(r/b) = sqrt(r)*sqrt(b)/b for b > 0
                    l = list(m); l.remove(i)
                    return pmul(pmul(sqrt_poly(E, T._mk({tuple(l): c}), st), sqrt_poly(E, b, st)), Poly({(i,): 1}))
    k = ('sqrt', pkey(v))
    if k in MEMO: return MEMO[k]
    s = new_real('sqrt', lo=0); at = T.ATOMS[atom_id(s)]
    zv = zreal(v)
    at.facts.append(z3.Implies(zv >= 0, z3.And(at.z >= 0, at.z * at.z == zv)))
    at.facts.append(z3.Implies(zv > 0, at.z > 0))
    at.meta = ('sqrt', v)
    MEMO[k] = s
    return s
@model(r'^llvm\.sqrt|^sqrt$')
def sqrt_(E, st, fr, ins, f, a):
    x = a[0]
    neg = b_or(x.ni, b_and(x.finc(), cmp('<', x.v, 0)))
    if neg is not False:
        d = E.decide(st, neg)
        if d is not None: neg = d
    return V(D(sqrt_poly(E, x.v, st), b_or(x.nan, neg), x.pi, False))
def uf1(name, x, facts=None, lo=None, hi=None):
    F = z3.Function(name, z3.RealSort(), z3.RealSort())
    t = F(zreal(x))
    at = T.AST2ATOM.get(t.get_id())
    if at is None:
        at = mk_atom(t, 'r', lo, hi, meta=('uf', name, x))
        if facts: at.facts += facts(at.z, zreal(x))
    return Poly.atom(at)
def exp_poly(x):
    if isconst(x) and x == 0: return 1
    if isinstance(x, Poly) and len(x.d) == 1:
        (m, c), = x.d.items()
        if c == 1 and len(m) == 1 and T.ATOMS[m[0]].meta and T.ATOMS[m[0]].meta[:2] == ('uf', 'log'): return T.ATOMS[m[0]].meta[2]
    return uf1('exp', x, lambda z, a: [z > 0, z3.Implies(a == 0, z == 1), z3.Implies(a > 0, z > 1), z3.Implies(a < 0, z < 1)], lo=0)
def log_poly(x):
    if isconst(x) and x == 1: return 0
    if isinstance(x, Poly) and len(x.d) == 1:
        (m, c), = x.d.items()
        if c == 1 and len(m) == 1 and T.ATOMS[m[0]].meta and T.ATOMS[m[0]].meta[:2] == ('uf', 'exp'): return T.ATOMS[m[0]].meta[2]
    F = z3.Function('exp', z3.RealSort(), z3.RealSort())
    return uf1('log', x, lambda z, a: [z3.Implies(a == 1, z == 0), z3.Implies(a > 1, z > 0), z3.Implies(z3.And(a > 0, a < 1), z < 0), z3.Implies(a > 0, F(z) == a)])
@model(r'^llvm\.exp\.|^exp$', 'exp: uninterpreted with exp>0, sign and inverse facts')
def exp_(E, st, fr, ins, f, a):
    x = a[0]
    v = exp_poly(x.v)
    if x.ni is not False: v = ite_r(x.ni, 0, v) if x.ni is not True else 0
    return V(D(v, x.nan, x.pi, False))
@model(r'^llvm\.log\.|^log$', 'log: uninterpreted with sign and inverse facts')
def log_(E, st, fr, ins, f, a):
    x = a[0]
    z = b_and(x.finc(), cmp('==', x.v, 0))
    neg = b_or(x.ni, b_and(x.finc(), cmp('<', x.v, 0)))
    for_ = [E.decide(st, c) if c not in (True, False) else c for c in (z, neg)]
    z = for_[0] if for_[0] is not None else z; neg = for_[1] if for_[1] is not None else neg
    return V(D(log_poly(x.v), b_or(x.nan, neg), x.pi, z))
@model(r'^llvm\.pow\.|^pow$|^llvm\.powi|^double std::pow', 'pow: exact for small integer and half exponents, else uninterpreted')
def pow_(E, st, fr, ins, f, a):
    x, y = a
    if isinstance(y, (int, Poly)): y = D(y)
    if y.fin() and isconst(y.v):
        c = Fraction(y.v)
        if c.denominator == 1 and 0 <= c <= 8:
            r = D(1)
            for _ in range(int(c)): r = E.fmul(r, x)
            return V(r)
        if c.denominator == 1 and -8 <= c < 0:
            r = D(1)
            for _ in range(int(-c)): r = E.fmul(r, x)
            return V(E.fdiv(st, D(1), r))
        if c == Fraction(1, 2): return sqrt_(E, st, fr, ins, f, [x])
        if c.denominator == 2 and 0 < c <= 8 and x.fin():
            r = sqrt_(E, st, fr, ins, f, [x])[1]
            for _ in range(int(c)): r = E.fmul(r, x)
            return V(r)
    if not (x.fin() and y.fin()) and E.decide(st, b_and(x.finc(), y.finc())) is not True: raise Unsupported('pow of non-finite')
    F = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
    t = F(zreal(x.v), zreal(y.v))
    at = T.AST2ATOM.get(t.get_id())
    if at is None:
        at = mk_atom(t, 'r', meta=('uf2', 'pow', x.v, y.v))
        zx, zy = zreal(x.v), zreal(y.v)
        at.facts += [z3.Implies(zx > 0, at.z > 0), z3.Implies(zy == 0, at.z == 1), z3.Implies(zy == 1, at.z == zx), z3.Implies(zx == 1, at.z == 1)]
    pos = cmp('>', x.v, 0)
    d = E.decide(st, pos)
    if d is True: return V(D(Poly.atom(at)))
    return V(D(Poly.atom(at), new_bool('pownan') if d is None else new_bool('pownan')))
for _fn in ('tgamma', 'lgamma', 'erf', 'erfc', 'sin', 'cos', 'tan', 'atan', 'log10', 'log2', 'log1p', 'expm1', 'tanh'):
    def _g(E, st, fr, ins, f, a, _fn=_fn):
        x = a[0]
        if not x.fin() and E.decide(st, x.finc()) is not True: raise Unsupported(_fn + ' of non-finite')
        return V(D(uf1(_fn, x.v)))
    TABLE.append((re.compile(r'^(llvm\.)?%s(\.f64)?$' % _fn), _g, _fn + ': uninterpreted'))
@model(r'^llvm\.floor|^floor$')
def floor_(E, st, fr, ins, f, a):
    x = a[0]; return V(D(E.floor_of(x.v), x.nan, x.pi, x.ni))
@model(r'^llvm\.ceil|^ceil$')
def ceil_(E, st, fr, ins, f, a):
    x = a[0]; return V(D(pscale(E.floor_of(pscale(x.v, -1)), -1), x.nan, x.pi, x.ni))
@model(r'^llvm\.round\.|^round$')
def round_(E, st, fr, ins, f, a):
    x = a[0]
    up = E.floor_of(padd(x.v, Fraction(1, 2))); dn = pscale(E.floor_of(padd(pscale(x.v, -1), Fraction(1, 2))), -1)
    return V(D(ite_i(cmp('>=', x.v, 0), up, dn), x.nan, x.pi, x.ni))
@model(r'^llvm\.trunc\.|^trunc$')
def trunc_(E, st, fr, ins, f, a):
    x = a[0]
    return V(D(ite_i(cmp('>=', x.v, 0), E.floor_of(x.v), pscale(E.floor_of(pscale(x.v, -1)), -1)), x.nan, x.pi, x.ni))
@model(r'^llvm\.fmuladd|^llvm\.fma\.|^fma$')
def fma_(E, st, fr, ins, f, a): return V(E.fadd(E.fmul(a[0], a[1]), a[2]))
@model(r'^llvm\.is\.fpclass')
def fpclass(E, st, fr, ins, f, a):
    x = a[0]; m = int(a[1])
    if x is UNDEF: x = E.fresh_of('double')
    c = []
    if m & 3: c.append(x.nan)
    if m & 4: c.append(x.ni)
    if m & 0x200: c.append(x.pi)
    fin = m & 0x1f8
    if fin == 0x1f8: c.append(x.finc())
    elif fin: raise Unsupported('fpclass')
    return V(b_or(*c))
@model(r'^llvm\.copysign|^copysign$')
def copysign(E, st, fr, ins, f, a):
    x, y = a
    ab = fabs_(E, st, fr, ins, f, [x])[1]
    neg = b_or(y.ni, b_and(y.finc(), cmp('<', y.v, 0)))
    return V(v_ite(neg, E.fneg(ab), ab))
@model(r'^llvm\.eh\.typeid\.for')
def typeid(E, st, fr, ins, f, a):
    for n, i in E.gobj.items():
        if isinstance(a[0], Ptr) and i == a[0].obj: return V(E.typeid(n))
    return V(1)

# ----------------------------------------------------------- allocation
@model(r'^operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)$')
def op_new(E, st, fr, ins, f, a):
    n = a[0]
    c = cmp('>=', n, 0)
    if c is not True:
        d = E.decide(st, c)
        if d is False: return ('throw', (NULL, '_ZTISt9bad_alloc'))
        if d is None: E.assumptions.add('allocation sizes do not overflow 64 bits and are not negative'); st.pc.append(zb(c))
    i = E.new_obj(st, 'heap', n, 'heap')
    return V(Ptr(i, 0))
@model(r'^operator delete(\[\])?\(')
def op_delete(E, st, fr, ins, f, a):
    p = a[0]
    if isinstance(p, Ptr) and p.obj != 0:
        o = E.wobj(st, p.obj)
        if o.freed: E.oblige(st, False, 'no-double-free', ins, kind='mem')
        if o.kind in ('input',): E.oblige(st, False, 'delete-of-borrowed', ins, kind='mem')
        o.freed = True
    return NOP
@model(r'^(free)$')
def free_(E, st, fr, ins, f, a): return op_delete(E, st, fr, ins, f, a)

# ----------------------------------------------------------- exceptions
@model(r'^__cxa_allocate_exception')
def alloc_exc(E, st, fr, ins, f, a):
    return V(Ptr(E.new_obj(st, 'exception', None, 'exc'), 0))
@model(r'^__cxa_free_exception')
def free_exc(E, st, fr, ins, f, a): return NOP
@model(r'^__cxa_throw')
def cxa_throw(E, st, fr, ins, f, a):
    tn = '?'
    for n, i in E.gobj.items():
        if isinstance(a[1], Ptr) and i == a[1].obj: tn = n
    return ('throw', (a[0], tn))
@model(r'^__cxa_begin_catch')
def begin_catch(E, st, fr, ins, f, a): return V(a[0])
@model(r'^__cxa_end_catch')
def end_catch(E, st, fr, ins, f, a): return NOP
@model(r'^__cxa_rethrow')
def rethrow(E, st, fr, ins, f, a): return ('throw', st.exc)
@model(r'^std::current_exception')
def cur_exc(E, st, fr, ins, f, a):
    E.store(st, a[0], NULL, 'ptr', ins); return NOP
@model(r'^std::rethrow_exception')
def rethrow_exc(E, st, fr, ins, f, a): return ('throw', st.exc)
@model(r'^__cxa_pure_virtual|^__cxa_bad_cast')
def badcast(E, st, fr, ins, f, a): return ('throw', (NULL, '_ZTISt8bad_cast'))
@model(r'^std::__throw_')
def std_throw(E, st, fr, ins, f, a):
    return ('throw', (NULL, '_ZTISt9bad_alloc' if 'bad_alloc' in f['dem'] else '_ZTISt12out_of_range' if 'range' in f['dem'] else '_ZTISt12length_error'))
@model(r'^ldt::LdtException::|^std::runtime_error::|^std::logic_error::|^std::exception::|^std::invalid_argument::|^std::out_of_range::')
def exc_ctor(E, st, fr, ins, f, a): return NOP

# ----------------------------------------------------------- text used in messages only
@model(r'^(?!std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>\*)(?:(std::__cxx11::)?basic_string<|^std::__cxx11::basic_(o|i)?string(stream|buf)?<|^std::basic_(o|i)stream|^std::(ios_base|locale)::|^std::allocator<char>|^formatHelper|^std::__cxx11::basic_string.* (format|std::operator\+)<|^std::.*operator<<|^std::basic_ostream|^std::(__new_)?allocator<char>::|^std::__cxx11::to_string|^std::basic_ios|^std::char_traits|^std::__cxx11::basic_string.* (std::__cxx11::)?to_string|^ldt::ToString|^std::__ostream_insert|^std::basic_string|^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> )', 'std::string and stream functions: opaque (message text only)')
def opaque(E, st, fr, ins, f, a):
    if f['ret'] == 'void': return NOP
    if f['ret'] == 'i1' or 'operator==' in f['dem'] or 'compare' in f['dem']: raise Unsupported('string result used: ' + f['dem'][:80])
    if f['ret'] == 'ptr': return V(UNDEF)
    if isinstance(f['ret'], str) and f['ret'].startswith('i'): return V(E.fresh_of(f['ret']))
    return V(UNDEF)
@model(r'^.*::type std::map<std::__cxx11::basic_string.*::insert<|^void boost::algorithm::to_lower<', 'descriptive fields (texts) of a variable: opaque')
def opaque_fields(E, st, fr, ins, f, a):
    return NOP if f['ret'] == 'void' else V(UNDEF)
@model(r'^strlen$')
def strlen_(E, st, fr, ins, f, a): return V(new_int('strlen', 0, 1 << 30))

@model(r'^__dynamic_cast')
def dyncast(E, st, fr, ins, f, a):
    p = a[0]
    if p.obj == 0: return V(NULL)
    vp = E.load(st, Ptr(p.obj, p.off), 'ptr', ins)
    want = [n for n, i in E.gobj.items() if isinstance(a[2], Ptr) and i == a[2].obj][0]
    vt = [n for n, i in E.gobj.items() if isinstance(vp, Ptr) and i == vp.obj]
    if not vt: raise Unsupported('dynamic_cast of unknown object')
    ti = None
    for off, sz, ty, op in E.mod.globals[vt[0]].get('init', []):
        if off == 8 and op[0] == 'g': ti = op[1]
    if ti is None: ti = vt[0].replace('_ZTV', '_ZTI')
    return V(p if E.exc_match(ti, want) else NULL)
@model(r'^__cxa_guard|^__cxa_atexit|^atexit')
def guard(E, st, fr, ins, f, a):
    return V(1) if f['ret'] != 'void' else NOP
