"""Term layer of ldtvc: polynomials over atoms, extended reals, solver queries.

Integers and reals are kept as polynomials with exact coefficients over *atoms*.
An atom is a z3 term (a fresh constant, an uninterpreted application or an
if-then-else) together with defining facts that are added to every query that
mentions it.
"""
import z3, time
from fractions import Fraction

class Unsupported(Exception):
    pass

class Atom:
    __slots__ = ('id', 'z', 'sort', 'lo', 'hi', 'facts', 'done', 'name', 'meta')

ATOMS = []
AST2ATOM = {}
_KEEP = []
BIG = Fraction(1.7976931348623157e308)
STATS = {'queries': 0, 'time': 0.0, 'unknown': 0, 'cvc5': 0}

def reset():
    EQPOLY.clear()
    ATOMS.clear(); AST2ATOM.clear(); _KEEP.clear(); MEMO.clear(); IMONO.clear(); IMONO_BY_FACTOR.clear(); _SYM.clear()
    STATS.update({'queries': 0, 'time': 0.0, 'unknown': 0, 'cvc5': 0})

MEMO = {}
_cnt = [0]

def mk_atom(z, sort, lo=None, hi=None, facts=None, name=None, meta=None):
    k = z.get_id()
    a = AST2ATOM.get(k)
    if a is not None:
        return a
    a = Atom(); a.id = len(ATOMS); a.z = z; a.sort = sort; a.lo = lo; a.hi = hi
    a.facts = facts or []; a.done = None; a.name = name; a.meta = meta
    ATOMS.append(a); AST2ATOM[k] = a; _KEEP.append(z)
    return a

def fresh_name(p):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])

def new_int(name, lo=None, hi=None, facts=None, meta=None):
    return Poly.atom(mk_atom(z3.Int(fresh_name(name)), 'i', lo, hi, facts, name, meta))

def new_real(name, facts=None, meta=None, lo=None, hi=None):
    return Poly.atom(mk_atom(z3.Real(fresh_name(name)), 'r', lo, hi, facts, name, meta))

def new_bool(name):
    return z3.Bool(fresh_name(name))

class Poly:
    __slots__ = ('d', '_zi', '_zr', '_k', '_iv')
    def __init__(self, d):
        self.d = d; self._zi = None; self._zr = None; self._k = None; self._iv = None
    @staticmethod
    def atom(a):
        return Poly({(a.id,): 1})
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k
    def __repr__(self):
        return ' + '.join('%s*%s' % (c, '.'.join(str(ATOMS[i].z) for i in m)) if m else str(c) for m, c in self.key())

def pkey(p):
    return p.key() if isinstance(p, Poly) else p

def isconst(p):
    return not isinstance(p, Poly)

def _mk(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return _n(d[()])
    return Poly(d)

def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c

def _d(p):
    return p.d if isinstance(p, Poly) else ({(): p} if p != 0 else {})

def padd(a, b):
    if isconst(a) and isconst(b):
        return _n(a + b)
    if isconst(a) and a == 0: return b
    if isconst(b) and b == 0: return a
    d = dict(_d(a))
    for m, c in _d(b).items():
        d[m] = d.get(m, 0) + c
    return _mk(d)

def pscale(a, k):
    if isconst(a): return _n(a * k)
    if k == 1: return a
    return _mk({m: _n(c * k) for m, c in a.d.items()})

def psub(a, b):
    return padd(a, pscale(b, -1))

def pmul(a, b):
    if isconst(a): return pscale(b, a)
    if isconst(b): return pscale(a, b)
    if len(a.d) * len(b.d) > 400000:
        raise Unsupported('polynomial too large')
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
    return reduce_quot(_mk(d))

# --- quotient atoms: q = n/d with rule  q*d -> n is applied when d is a single atom
QUOT = {}
def reduce_quot(p):
    if isconst(p): return p
    changed = False
    out = {}
    for m, c in p.d.items():
        for i in m:
            a = ATOMS[i]
            if a.meta and a.meta[0] == 'inv':
                da = a.meta[1]
                if da in m:
                    l = list(m); l.remove(i); l.remove(da); changed = True
                    m = tuple(l)
                    break
        out[m] = out.get(m, 0) + c
    if not changed: return p
    r = _mk(out)
    return reduce_quot(r)

def ppow(a, n):
    r = 1
    for _ in range(n): r = pmul(r, a)
    return r

# ---------------------------------------------------------------- intervals
INF = float('inf')
def interval(p):
    if isconst(p): return (p, p)
    if p._iv is not None: return p._iv
    lo = 0; hi = 0
    for m, c in p.d.items():
        l, h = 1, 1
        prev = None
        for i in m:
            a = ATOMS[i]
            al = -INF if a.lo is None else a.lo
            ah = INF if a.hi is None else a.hi
            cs = [_im(l, al), _im(l, ah), _im(h, al), _im(h, ah)]
            l, h = min(cs), max(cs)
        if len(m) == 2 and m[0] == m[1]: l = max(l, 0)
        if c < 0: l, h = h, l
        l = _im(l, c); h = _im(h, c)
        lo = lo + l; hi = hi + h
    p._iv = (lo, hi)
    return p._iv

def _im(a, b):
    if a == 0 or b == 0: return 0
    if a in (INF, -INF) or b in (INF, -INF):
        return INF if (a > 0) == (b > 0) else -INF
    return a * b

# ---------------------------------------------------------------- to z3
IMONO = {}
IMONO_BY_FACTOR = {}
def imono(m):
    """abstract integer product, with product lemmas added per query"""
    if m in IMONO: return IMONO[m]
    z = z3.Int('mono!' + '.'.join(map(str, m)))
    IMONO[m] = z
    a = mk_atom(z, 'i', meta=('imono', m))
    l, h = 1, 1
    for i in m:
        x = ATOMS[i]
        al = -INF if x.lo is None else x.lo
        ah = INF if x.hi is None else x.hi
        cs = [_im(l, al), _im(l, ah), _im(h, al), _im(h, ah)]
        l, h = min(cs), max(cs)
    if len(m) == 2 and m[0] == m[1]: l = max(l, 0)
    a.lo = None if l == -INF else l
    a.hi = None if h == INF else h
    return z

def zint(p):
    if isconst(p):
        if isinstance(p, Fraction): raise Unsupported('fraction in int')
        return z3.IntVal(p)
    if p._zi is None:
        ts = []
        for m, c in p.key():
            if m == (): ts.append(z3.IntVal(int(c)))
            else:
                z = ATOMS[m[0]].z if len(m) == 1 else imono(m)
                ts.append(z if c == 1 else z3.IntVal(int(c)) * z)
        p._zi = ts[0] if len(ts) == 1 else z3.Sum(ts)
    return p._zi

def zreal(p):
    if isconst(p):
        return z3.RealVal(str(Fraction(p)))
    if p._zr is None:
        ts = []
        for m, c in p.key():
            f = []
            ints = [i for i in m if ATOMS[i].sort == 'i']
            if len(ints) > 1:
                f.append(z3.ToReal(imono(tuple(ints))))
            elif ints:
                f.append(z3.ToReal(ATOMS[ints[0]].z))
            f += [ATOMS[i].z for i in m if ATOMS[i].sort == 'r']
            if c != 1 or not f: f = [z3.RealVal(str(Fraction(c)))] + f
            ts.append(f[0] if len(f) == 1 else z3.Product(f))
        p._zr = ts[0] if len(ts) == 1 else z3.Sum(ts)
    return p._zr

def all_int(p):
    if isconst(p): return not isinstance(p, Fraction)
    return all(ATOMS[i].sort == 'i' for m in p.d for i in m) and all(not isinstance(c, Fraction) for c in p.d.values())

def zterm(p):
    return zint(p) if all_int(p) else zreal(p)

# ---------------------------------------------------------------- booleans
def b_not(a):
    if a is True: return False
    if a is False: return True
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def b_and(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def b_or(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def b_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if a is True and b is False: return c
    if a is False and b is True: return b_not(c)
    if a is True: return b_or(c, b)
    if a is False: return b_and(b_not(c), b)
    if b is True: return b_or(b_not(c), a)
    if b is False: return b_and(c, a)
    return z3.If(c, a, b)
def zb(b):
    if b is True: return z3.BoolVal(True)
    if b is False: return z3.BoolVal(False)
    return b

def clear_inv(d, limit=60000):
    """multiply d by denominators until no inverse atom is left; (poly, denominators)"""
    dens = []
    while not isconst(d):
        top = None
        for m in d.d:
            for i in m:
                mt = ATOMS[i].meta
                if mt and mt[0] in ('inv', 'invp') and (top is None or i > top): top = i
        if top is None: break
        mt = ATOMS[top].meta
        b = Poly({(mt[1],): 1}) if mt[0] == 'inv' else mt[1]
        parts = {}
        for m, c in d.d.items():
            k = m.count(top)
            parts.setdefault(k, {})[tuple(x for x in m if x != top)] = c
        K = max(parts)
        if K > 12: return None, None
        pw = [1]
        for _ in range(K): pw.append(pmul(pw[-1], b))
        r = 0
        for k, dd in parts.items(): r = padd(r, pmul(_mk(dd), pw[K - k]))
        d = r; dens.append(b)
        if isinstance(d, Poly) and len(d.d) > limit: return None, None
    return d, dens

def cmp0(op, d):
    """compare polynomial d with 0"""
    if op in ('==', '!=') and isinstance(d, Poly) and any(ATOMS[i].meta and ATOMS[i].meta[0] in ('inv', 'invp') for m in d.d for i in m):
        k = ('cleq', d.key())
        if k not in MEMO:
            p, dens = clear_inv(d)
            MEMO[k] = None
            if p is not None and isconst(p) and p == 0:
                # a rational identity: holds wherever the denominators are non-zero
                MEMO[k] = b_or(b_and(*[cmp0('!=', b) for b in dens]), cmp0x('==', d))
        r = MEMO[k]
        if r is not None: return r if op == '==' else b_not(r)
    if op in ('==', '!=') and isinstance(d, Poly) and len(d.d) == 1:
        (m, c), = d.d.items()
        if len(m) > 1 and all(ATOMS[i].sort == 'r' for i in m):
            # a product is zero iff a factor is
            r = b_or(*[cmp0('==', Poly({(i,): 1})) for i in sorted(set(m))])
            if r is not True and r is not False: EQPOLY.setdefault(r.get_id(), d); _KEEP.append(r)
            return r if op == '==' else b_not(r)
    return cmp0x(op, d)

def cmp0x(op, d):
    if isconst(d):
        return {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
    lo, hi = interval(d)
    if op in ('<', '>='):
        if hi < 0: return op == '<'
        if lo >= 0: return op == '>='
    elif op in ('<=', '>'):
        if hi <= 0: return op == '<='
        if lo > 0: return op == '>'
    else:
        if hi < 0 or lo > 0: return op == '!='
    k = ('cmp', op, d.key())
    r = MEMO.get(k)
    if r is not None: return r
    isint = all(ATOMS[i].sort == 'i' for m in d.d for i in m)
    if isint:
        # clear denominators, divide by gcd
        from math import gcd
        den = 1
        for c in d.d.values():
            if isinstance(c, Fraction): den = den * c.denominator // gcd(den, c.denominator)
        if den != 1: d = pscale(d, den)
    z = zint if isint else zreal
    c = d.d.get((), 0)
    rest = _mk({m: x for m, x in d.d.items() if m != ()})
    l = z(rest); rhs = z(_n(-c))
    r = {'==': lambda: l == rhs, '!=': lambda: l != rhs, '<': lambda: l < rhs, '<=': lambda: l <= rhs, '>': lambda: l > rhs, '>=': lambda: l >= rhs}[op]()
    MEMO[k] = r
    if op == '==': EQPOLY[r.get_id()] = d
    return r

EQPOLY = {}
def cmp(op, a, b):
    return cmp0(op, psub(a, b))

def ite_i(c, a, b, w=None):
    if c is True: return a
    if c is False: return b
    if pkey(a) == pkey(b): return a
    k = ('itei', c.get_id(), pkey(a), pkey(b))
    if k in MEMO: return MEMO[k]
    _KEEP.append(c)
    (l1, h1), (l2, h2) = interval(a), interval(b)
    l = min(l1, l2); h = max(h1, h2)
    at = mk_atom(z3.If(c, zint(a), zint(b)), 'i', None if l == -INF else l, None if h == INF else h, meta=('ite', c, a, b))
    r = Poly.atom(at)
    MEMO[k] = r
    return r

def ite_r(c, a, b):
    if c is True: return a
    if c is False: return b
    if pkey(a) == pkey(b): return a
    k = ('iter', c.get_id(), pkey(a), pkey(b))
    if k in MEMO: return MEMO[k]
    _KEEP.append(c)
    (l1, h1), (l2, h2) = interval(a), interval(b)
    l = min(l1, l2); h = max(h1, h2)
    at = mk_atom(z3.If(c, zreal(a), zreal(b)), 'r', None if l == -INF else l, None if h == INF else h, meta=('ite', c, a, b))
    r = Poly.atom(at)
    MEMO[k] = r
    return r

def bool_int(b):
    if b is True: return 1
    if b is False: return 0
    r = ite_i(b, 1, 0)
    return r

def int_bool(p):
    """p != 0, recovering the boolean of bool_int"""
    if isconst(p): return p != 0
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1:
            a = ATOMS[m[0]]
            if a.meta and a.meta[0] == 'ite' and isconst(a.meta[2]) and isconst(a.meta[3]):
                x, y = a.meta[2] != 0, a.meta[3] != 0
                return b_ite(a.meta[1], x, y)
    return cmp('!=', p, 0)

# ------------------------------------------------------- integer division
def idiv_floor(a, b):
    """floor division by a positive constant or polynomial; returns (q, r) atoms"""
    k = ('fdiv', pkey(a), pkey(b))
    if k in MEMO: return MEMO[k]
    if isconst(a) and isconst(b):
        r = (a // b, a % b)
    else:
        if isconst(b) and isinstance(a, Poly):
            # split off the exactly divisible part
            ex = {m: c for m, c in a.d.items() if c % b == 0}
            rest = {m: c for m, c in a.d.items() if c % b != 0}
            if ex and (rest and not (len(rest) == 1 and () in rest and False)):
                q1 = _mk({m: c // b for m, c in ex.items()})
                rp = _mk(rest)
                q2, r2 = idiv_floor(rp, b)
                MEMO[k] = (padd(q1, q2), r2)
                return MEMO[k]
            if ex and not rest:
                MEMO[k] = (_mk({m: c // b for m, c in ex.items()}), 0)
                return MEMO[k]
        lo, hi = interval(a)
        ql = qh = None
        if isconst(b):
            if lo != -INF: ql = int(lo) // b
            if hi != INF: qh = int(hi) // b
            if ql is not None and ql == qh:
                MEMO[k] = (ql, psub(a, ql * b)); return MEMO[k]
            rlo, rhi = 0, b - 1
        else:
            bl, bh = interval(b)
            if lo >= 0: ql = 0
            if lo >= 0 and hi != INF: qh = int(hi)
            rlo = 0; rhi = None if bh == INF else int(bh) - 1
            if lo >= 0 and hi != INF: rhi = int(hi) if rhi is None else min(rhi, int(hi))
        q = new_int('q', ql, qh)
        r_ = psub(a, pmul(b, q))
        qa = ATOMS[list(q.d)[0][0]]
        qa.facts.append(lambda: [zb(b_or(cmp('<=', b, 0), b_and(cmp('>=', r_, 0), cmp('<', r_, b))))])
        # give the remainder its own atom so that intervals are known
        rr = new_int('r', rlo, rhi)
        ra = ATOMS[list(rr.d)[0][0]]
        f = lambda: [zb(b_or(cmp('<=', b, 0), b_and(cmp('==', psub(rr, r_), 0), cmp('>=', rr, 0), cmp('<', rr, b))))]
        ra.facts.append(f); qa.facts.append(f)
        r = (q, rr)
    MEMO[k] = r
    return r

# ------------------------------------------------------- query machinery
_SYM = {}
def symbols(e):
    """ids of atoms occurring in z3 expression e"""
    k = e.get_id()
    r = _SYM.get(k)
    if r is not None: return r
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        kk = x.get_id()
        if kk in _SYM: continue
        if done:
            s = set()
            for c in x.children(): s |= _SYM[c.get_id()]
            a = AST2ATOM.get(kk)
            if a is not None: s.add(a.id)
            elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(-kk)          # plain boolean constant
            _SYM[kk] = frozenset(s); _KEEP.append(x)
        else:
            if z3.is_quantifier(x): _SYM[kk] = frozenset(); continue
            stack.append((x, True))
            for c in x.children():
                if c.get_id() not in _SYM: stack.append((c, False))
    return _SYM[k]

FUEL = [2]
USE_BIG = [False]
def atom_facts(a):
    if a.done is None:
        out = []
        z = a.z
        if a.sort == 'i':
            if a.lo is not None: out.append(z >= a.lo)
            if a.hi is not None: out.append(z <= a.hi)
        else:
            if a.lo is not None: out.append(z >= z3.RealVal(str(Fraction(a.lo))))
            if a.hi is not None: out.append(z <= z3.RealVal(str(Fraction(a.hi))))
        a.done = out
        for f in a.facts:
            if callable(f):
                for x in f():
                    if x is not True: out.append(zb(x))
            else: out.append(f)
    return a.done

def closure(exprs):
    """facts of all atoms reachable"""
    seen = set(); todo = []; out = []; outk = set()
    def push(e):
        for i in symbols(e):
            if i >= 0 and i not in seen:
                seen.add(i); todo.append(i)
    for e in exprs: push(e)
    while todo:
        i = todo.pop()
        a = ATOMS[i]
        if a.meta and a.meta[0] == 'spec' and a.meta[1] >= FUEL[0]: continue
        if a.meta and a.meta[0] == 'ite':
            pass
        for f in atom_facts(a):
            k = f.get_id()
            if k not in outk:
                outk.add(k); out.append(f); push(f)
        if a.meta and a.meta[0] == 'imono':
            for j in a.meta[1]:
                if j not in seen: seen.add(j); todo.append(j)
    return seen, out

UF_MONO = {'exp': 1, 'log': 1, 'erf': 1, 'erfc': -1, 'atan': 1, 'tanh': 1, 'sqrt': 1}
def uf_lemmas(seen):
    """strict monotonicity between applications of the same elementary function"""
    by = {}
    for i in seen:
        if i >= 0:
            m = ATOMS[i].meta
            if m and m[0] == 'uf' and m[1] in UF_MONO: by.setdefault(m[1], []).append((ATOMS[i].z, m[2]))
    out = []
    for n, l in by.items():
        if len(l) > 8: continue
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                za, a = l[i]; zb_, b = l[j]
                a = zreal(a); b = zreal(b)
                lt, gt = (za < zb_, za > zb_) if UF_MONO[n] > 0 else (za > zb_, za < zb_)
                g = z3.And(z3.Implies(a < b, lt), z3.Implies(a > b, gt))
                if n == 'log': g = z3.Implies(z3.And(a > 0, b > 0), g)
                out.append(g)
    return out

def product_lemmas(seen):
    monos = [ATOMS[i] for i in seen if i >= 0 and ATOMS[i].meta and ATOMS[i].meta[0] == 'imono']
    out = []
    byf = {}
    for a in monos:
        m = a.meta[1]
        for f in set(m):
            l = list(m); l.remove(f)
            byf.setdefault(f, []).append((a, tuple(l)))
    for a in monos:
        m = a.meta[1]
        if len(m) == 2:
            x, y = ATOMS[m[0]].z, ATOMS[m[1]].z
            z = a.z
            if m[0] == m[1]:
                out += [z >= 0, z >= x, z >= -x, z3.Implies(x == 0, z == 0), z3.Implies(x >= 2, z >= 2 * x)]
            else:
                out += [z3.Implies(z3.Or(x == 0, y == 0), z == 0),
                        z3.Implies(z3.And(x >= 1, y >= 1), z3.And(z >= x, z >= y)),
                        z3.Implies(z3.And(x >= 1, y <= -1), z3.And(z <= -x, z <= y)),
                        z3.Implies(z3.And(x <= -1, y >= 1), z3.And(z <= x, z <= -y)),
                        z3.Implies(z3.And(x <= -1, y <= -1), z3.And(z >= -x, z >= -y)),
                        z3.Implies(x == 1, z == y), z3.Implies(y == 1, z == x), z3.Implies(x == -1, z == -y), z3.Implies(y == -1, z == -x)]
        else:
            # degree 3+: relate to (rest, factor)
            for f in set(m):
                l = list(m); l.remove(f)
                r = imono(tuple(l)) if len(l) > 1 else ATOMS[l[0]].z
                x = ATOMS[f].z
                out += [z3.Implies(z3.And(x >= 1, r >= 1), z3.And(a.z >= x, a.z >= r)), z3.Implies(z3.Or(x == 0, r == 0), a.z == 0), z3.Implies(x == 1, a.z == r)]
    out += uf_lemmas(seen)
    n = 0
    for f, lst in byf.items():
        r = ATOMS[f].z
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                a, la = lst[i]; b, lb = lst[j]
                if len(la) != 1 or len(lb) != 1: 
                    if len(la) > 2 or len(lb) > 2: continue
                x = ATOMS[la[0]].z if len(la) == 1 else imono(la)
                y = ATOMS[lb[0]].z if len(lb) == 1 else imono(lb)
                out += [z3.Implies(z3.And(x < y, r >= 0), a.z + r <= b.z),
                        z3.Implies(z3.And(y < x, r >= 0), b.z + r <= a.z),
                        z3.Implies(z3.And(x < y, r < 0), a.z + r >= b.z),
                        z3.Implies(z3.And(y < x, r < 0), b.z + r >= a.z),
                        z3.Implies(x == y, a.z == b.z)]
                n += 1
                if n > 400: return out
    return out

def has_nl(seen):
    return any(i >= 0 and ATOMS[i].meta and ATOMS[i].meta[0] == 'imono' for i in seen)

def mono_defs(seen):
    out = []
    for i in seen:
        if i >= 0:
            a = ATOMS[i]
            if a.meta and a.meta[0] == 'imono':
                p = ATOMS[a.meta[1][0]].z
                for j in a.meta[1][1:]: p = p * ATOMS[j].z
                out.append(a.z == p)
    return out

_CACHE = {}
def cone(pc, goal):
    """conjuncts of pc connected (through atoms and facts) to goal"""
    seen, _ = closure([goal])
    seen = set(seen) | set(i for i in symbols(goal) if i < 0)
    rest = list(pc); out = []
    syms = [(e, closure_syms(e)) for e in rest]
    changed = True
    while changed:
        changed = False; nxt = []
        for e, s in syms:
            if s & seen:
                out.append(e); seen |= s; changed = True
            else: nxt.append((e, s))
        syms = nxt
    return out

_CS = {}
def closure_syms(e):
    k = (e.get_id(), FUEL[0])
    r = _CS.get(k)
    if r is None or r[0] is not e:
        s, _ = closure([e])
        r = (e, frozenset(s) | frozenset(i for i in symbols(e) if i < 0))
        _CS[k] = r
    return r[1]

def query(assertions, timeout=5000, want_model=False, level=1):
    """sat/unsat/unknown of the conjunction (facts added).  Returns (res, model)."""
    t0 = time.time()
    STATS['queries'] += 1
    asr = []
    for a in assertions:
        if a is True: continue
        if a is False: return 'unsat', None
        asr.append(a)
    seen, facts = closure(asr)
    lem = product_lemmas(seen)
    if lem:
        s2, f2 = closure(lem)
        facts = facts + [f for f in f2 if f.get_id() not in {g.get_id() for g in facts}]
    nl = bool(lem)
    allx = asr + facts + lem
    res = 'unknown'; model = None
    s = z3.Solver(); s.set('timeout', timeout)
    s.add(*allx)
    r = s.check()
    if r == z3.unsat: res = 'unsat'
    elif r == z3.sat:
        if nl and level >= 2:
            s2 = z3.Solver(); s2.set('timeout', timeout)
            s2.add(*allx); s2.add(*mono_defs(seen))
            r2 = s2.check()
            if r2 == z3.unsat: res = 'unsat'
            elif r2 == z3.sat: res = 'sat'; model = s2.model()
            else: res = 'unknown'; model = s.model()
        else:
            res = 'sat'; model = s.model()
    STATS['time'] += time.time() - t0
    if res == 'unknown': STATS['unknown'] += 1
    return res, model
