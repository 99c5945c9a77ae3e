"""Equational reasoning: an equality goal is proved by rewriting with the
equalities of the path condition (and the unfolding of specification functions)
and clearing denominators; the side conditions (denominators non-zero) go to SMT."""
import z3, time, math
from terms import *
import terms as T

def flat(e, out):
    if e is True: return
    if e is False: out.append(e); return
    if z3.is_and(e):
        for c in e.children(): flat(c, out)
    elif z3.is_not(e) and z3.is_or(e.arg(0)):
        for c in e.arg(0).children(): flat(z3.Not(c), out)
    elif z3.is_not(e) and z3.is_not(e.arg(0)): flat(e.arg(0).arg(0), out)
    else: out.append(e)

def eqpoly(e):
    if e is True or e is False: return None
    return T.EQPOLY.get(e.get_id())

def deep(p, seen=None):
    seen = set() if seen is None else seen
    st = [i for m in T._d(p) for i in m]
    while st:
        i = st.pop()
        if i in seen: continue
        seen.add(i)
        mt = ATOMS[i].meta
        if mt and mt[0] == 'inv': st.append(mt[1])
        elif mt and mt[0] == 'invp': st += [j for m in mt[1].d for j in m]
    return seen

def disjuncts(e):
    if z3.is_or(e): return list(e.children())
    if z3.is_not(e) and z3.is_and(e.arg(0)): return [z3.Not(c) for c in e.arg(0).children()]
    if z3.is_implies(e): return [z3.Not(e.arg(0)), e.arg(1)]
    return None

def substp(p, rules):
    for _ in range(60):
        if isconst(p): return p
        hit = None
        for m in p.d:
            for i in m:
                if i in rules: hit = i; break
            if hit is not None: break
        if hit is None: return p
        r = rules[hit]; out = 0; pw = {0: 1}
        parts = {}
        for m, c in p.d.items():
            k = m.count(hit)
            parts.setdefault(k, {})[tuple(x for x in m if x != hit)] = c
        for k in sorted(parts):
            w = ppow(r, k)
            out = padd(out, pmul(T._mk(parts[k]), w))
        p = out
        if isinstance(p, Poly) and len(p.d) > 20000: raise Unsupported('ring: too large')
    return p

class Ring:
    def __init__(self, E, st, deadline):
        self.E = E; self.st = st; self.rules = {}; self.deadline = deadline; self.done = set(); self.pairs = set()
    def add_fact(self, e, lvl=0):
        if time.time() > self.deadline: return
        fl = []; flat(e, fl)
        for x in fl:
            if x is False: continue
            p = eqpoly(x)
            if p is not None: self.add_eq(p); continue
            ds = disjuncts(x)
            if ds is None or lvl > 2: continue
            def haseq(d):
                f = []; flat(d, f)
                return any(eqpoly(y) is not None or disjuncts(y) is not None for y in f)
            keep = [d for d in ds if haseq(d)]
            rest = [d for d in ds if not any(d is k for k in keep)]
            if not keep or len(keep) > 4: continue
            ok = True
            for d in rest:
                if self.E.decide(self.st, d) is not False: ok = False; break
            if not ok: continue
            if len(keep) > 1:
                alive = [d for d in keep if self.E.decide(self.st, d) is not False]
                if len(alive) != 1: continue
                keep = alive
            self.add_fact(keep[0], lvl + 1)
    def add_eq(self, p):
        p = substp(p, self.rules)
        if isconst(p): return
        cnt = {}
        for m in p.d:
            for i in set(m): cnt[i] = cnt.get(i, 0) + 1
        best = None
        inner = set()
        for i in cnt:
            mt = ATOMS[i].meta
            if mt and mt[0] == 'inv': inner |= deep(Poly({(mt[1],): 1}))
            elif mt and mt[0] == 'invp': inner |= deep(mt[1])
        for m, c in p.d.items():
            if len(m) != 1 or cnt[m[0]] != 1 or m[0] in inner: continue
            a = ATOMS[m[0]]
            if a.meta and a.meta[0] in ('inv', 'invp'): continue
            pr = (1 if a.meta and a.meta[0] == 'spec' else 0, a.id)
            if best is None or pr > best[0]: best = (pr, m[0], c)
        if best is None: return
        _, i, c = best
        rhs = pscale(psub(p, Poly({(i,): c})), -Fraction(1) / Fraction(c))
        # an inverse atom elsewhere may hide i; those stay unreduced (sound, incomplete)
        for k in list(self.rules):
            self.rules[k] = substp(self.rules[k], {i: rhs})
        self.rules[i] = rhs
    def unfold(self, p):
        for i in sorted(deep(p), reverse=True):
            a = ATOMS[i]
            if i in self.done or not (a.meta and a.meta[0] == 'spec'): continue
            self.done.add(i)
            if i not in self.rules:
                # same specification function at provably equal arguments
                for j in list(self.rules):
                    o = ATOMS[j]
                    if j == i or not (o.meta and o.meta[0] == 'spec') or not z3.is_app(o.z) or o.z.decl().get_id() != a.z.decl().get_id(): continue
                    ok = True
                    for x, y in zip(a.z.children(), o.z.children()):
                        if x.get_id() == y.get_id(): continue
                        e = x == y
                        if z3.is_false(z3.simplify(e)) or self.E.decide(self.st, e) is not True: ok = False; break
                    if ok: self.add_eq(psub(Poly({(i,): 1}), Poly({(j,): 1}))); break
                if i in self.rules: continue
            for f in atom_facts(a): self.add_fact(f)

def inline_inv(p, rules):
    """rewrite the denominators of inverse atoms"""
    for _ in range(40):
        if isconst(p): return p
        hit = None
        for m in p.d:
            for i in m:
                mt = ATOMS[i].meta
                if mt and mt[0] in ('inv', 'invp'):
                    b = Poly({(mt[1],): 1}) if mt[0] == 'inv' else mt[1]
                    b2 = substp(b, rules)
                    if pkey(b2) != pkey(b): hit = (i, b2); break
            if hit: break
        if not hit: return p
        i, b2 = hit
        if isconst(b2):
            if b2 == 0: return p
            p = substp(p, {i: T._n(Fraction(1) / Fraction(b2))})
        else:
            from ldtvc import ENGINE
            p = substp(p, {i: ENGINE[0].quot(1, b2)})
    return p

def square_roots(E, st, q):
    """sqrt(v)*sqrt(v) -> v where v >= 0"""
    for _ in range(12):
        if isconst(q): return q
        hit = None
        for m in q.d:
            for i in m:
                mt = ATOMS[i].meta
                if mt and mt[0] == 'sqrt' and m.count(i) >= 2: hit = i; break
            if hit: break
        if not hit: return q
        v = ATOMS[hit].meta[1]
        if E.decide(st, cmp('>=', v, 0)) is not True: return q
        parts = 0
        for m, c in q.d.items():
            k = m.count(hit)
            rest = tuple(x for x in m if x != hit) + (hit,) * (k % 2)
            parts = padd(parts, pmul(T._mk({tuple(sorted(rest)): c}), ppow(v, k // 2)))
        q = parts
    return q

def same_ints(E, st, q, R):
    """integers of the residue that are equal on this path (a loop counter and its bound)"""
    if isconst(q): return False
    ints = sorted(i for i in deep(q) if ATOMS[i].sort == 'i' and not ATOMS[i].meta)
    hit = False
    for k, i in enumerate(ints[:5]):
        if i in R.rules: continue
        for j in ints[:k]:
            if j in R.rules or (i, j) in R.pairs: continue
            R.pairs.add((i, j))
            if E.decide(st, ATOMS[i].z == ATOMS[j].z) is True:
                R.add_eq(psub(Poly({(i,): 1}), Poly({(j,): 1}))); hit = True; break
    return hit

def nonzero(E, st, b):
    """b != 0; common factors and polynomials in one integer are looked at root by root"""
    if isconst(b): return b != 0
    ms = list(b.d)
    common = {i: min(m.count(i) for m in ms) for i in set(ms[0])}
    common = {i: k for i, k in common.items() if k}
    if common:
        d = {}
        for m, c in b.d.items():
            l = list(m)
            for i, k in common.items():
                for _ in range(k): l.remove(i)
            d[tuple(l)] = c
        rest = T._mk(d)
        return all(E.decide(st, cmp('!=', Poly({(i,): 1}), 0), 1500) is True for i in common) and nonzero(E, st, rest)
    at = {i for m in ms for i in m}
    if len(at) == 1 and max(len(m) for m in ms) > 1:
        i, = at
        if ATOMS[i].sort == 'i':
            co = {len(m): Fraction(c) for m, c in b.d.items()}
            l = 1
            for c in co.values(): l = l * c.denominator // math.gcd(l, c.denominator)
            c0 = abs(int(co.get(0, 0) * l))
            if 0 < c0 < 10**6:
                roots = [r for k in range(1, c0 + 1) if c0 % k == 0 for r in (k, -k) if sum(c * r**e for e, c in co.items()) == 0]
                return all(E.decide(st, ATOMS[i].z != r, 1500) is True for r in roots)
    return E.decide(st, cmp('!=', b, 0), 1500) is True

def prove_eq(E, st, p, R, again=True):
    q = p; dens = []
    for _ in range(4):
        q = substp(q, R.rules)
        q = inline_inv(q, R.rules)
        q = substp(q, R.rules)
        if isconst(q): break
        q, ds = clear_inv(q)
        if q is None: return False
        dens += ds
        q = substp(q, R.rules)
        k = pkey(q); q = square_roots(E, st, q)
        if isconst(q) or pkey(q) == k: break
    if not (isconst(q) and q == 0):
        if again and same_ints(E, st, q, R): return prove_eq(E, st, p, R, False)
        return False
    for b in dens:
        if not nonzero(E, st, b): return False
    return True

def ring_prove(E, st, c, budget=6):
    """True if goal c follows from st.pc by rewriting"""
    if c is True or c is False: return c is True
    fl = []; flat(c, fl)
    if not any(eqpoly(x) is not None or any(eqpoly(d) is not None for d in (disjuncts(x) or [])) for x in fl): return False
    try:
        R = Ring(E, st, time.time() + budget)
        for e in st.pc: R.add_fact(e)
        for x in fl:
            if not prove1(E, st, x, R): return False
        return True
    except Unsupported: return False

def prove1(E, st, x, R, lvl=0):
    if time.time() > R.deadline: return False
    p = eqpoly(x)
    if p is not None:
        q = p
        for _ in range(3):
            n = len(R.done)
            R.unfold(q)
            if prove_eq(E, st, p, R): return True
            q = substp(p, R.rules)
            if isconst(q) or (len(R.done) == n and _ > 0): break
        return E.decide(st, x) is True
    ds = disjuncts(x)
    if ds and lvl < 3:
        for d in ds:
            f = []; flat(d, f)
            if f and all(eqpoly(y) is not None or disjuncts(y) for y in f) and all(prove1(E, st, y, R, lvl + 1) for y in f): return True
    return E.decide(st, x) is True
