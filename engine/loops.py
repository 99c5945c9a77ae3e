"""Loop cutting with inferred (Houdini) invariants.

The invariants do not mention source names.  Loop-carried locations (SSA phis,
memory cells and arrays written in the loop) are discovered by executing the
body; locations that advance by a constant step are expressed through one
iteration counter; candidates are generated from templates, from the exit
conditions, and from the contract file's cand_* functions applied to every
well-typed choice of loop-carried locations.  A candidate is used only after it
has been proved to hold on entry and to be preserved by every path of the body.
"""
import z3, itertools, os, time, re
from terms import *
from values import *
import terms as T
import ring

class Slot:
    __slots__ = ('kind', 'key', 'ty', 'v0', 'mode', 'step', 'fin', 'hv', 'size', 'name', 'ety', 'back', 'align', 'bb', 'nolin')
    def __init__(self, kind, key, ty, v0, size=None):
        self.kind = kind; self.key = key; self.ty = ty; self.v0 = v0; self.size = size
        self.mode = 'fresh'; self.step = None; self.fin = 0; self.hv = None; self.back = None; self.align = 0
        self.bb = ty == 'i8' and v0 in (0, 1) and not isinstance(v0, (bool, Poly)); self.nolin = False

def is_int(v): return isinstance(v, (int, Poly)) and not isinstance(v, bool)
def is_bool(v): return isinstance(v, (bool, z3.BoolRef))

def subst(p, m):
    if isconst(p): return p
    r = 0
    for mono, c in p.d.items():
        t = c
        for i in mono:
            x = m.get(i)
            t = pmul(t, x) if x is not None else pmul(t, Poly({(i,): 1}))
        r = padd(r, t)
    return r

def atoms_of(p):
    if isconst(p): return set()
    s = set()
    for m in p.d:
        for i in m: s.add(i)
    return s
def deep_atoms(p):
    out = set()
    for i in atoms_of(p):
        out |= {j for j in symbols(T.ATOMS[i].z) if j >= 0}
    return out

class Cut:
    def __init__(self, E, st, B):
        self.E = E; self.entry = st; self.B = B
        fr = st.top
        self.fname = fr.fn['short']
        self.mark = len(T.ATOMS)
        self.slots = []
        self.slotmap = {}
        for p, v in E.phi_values(st, B.header):
            self.add(Slot('phi', p['id'], p['ty'], v))
        self.t = new_int('it', 0, 1 << 40)
        self.tid = list(self.t.d)[0][0]
        self.cmps = {}
        self.arrnew = {}
        self.cands = []
        self.frames = {}        # array slot -> half lines of indexes on which it equals its entry content

    def add(self, s):
        self.slots.append(s); self.slotmap[(s.kind, s.key)] = s

    # value of every slot in a state arriving at the header
    def values(self, st):
        E = self.E; out = {}
        ph = {p['id']: v for p, v in E.phi_values(st, self.B.header)}
        for s in self.slots:
            if s.kind == 'phi': out[(s.kind, s.key)] = ph[s.key]
            elif s.kind == 'cell':
                o = st.mem[s.key[0]]
                c = o.cells.get(s.key[1])
                out[(s.kind, s.key)] = self.cellval(c, s)
            else:
                o = st.mem[s.key[0]]
                A = o.arrs.get(s.key[1])
                out[(s.kind, s.key)] = A[1] if A is not None else None
        return out

    def cellval(self, c, s):
        if c is None: return UNDEF
        v = c[1]
        if isinstance(v, tuple): v = self.E.const_operand(self.entry, v[1])
        if c[0] != s.size: raise Unsupported('cell resized in loop')
        return v

    def make_header(self):
        """havocked header state"""
        E = self.E
        st = self.entry.copy()
        st.pending = None
        st.havoced = True
        st.extra['its'] = self.entry.extra.get('its', ()) + (self.t,)
        st.extra['depth'] = self.entry.extra.get('depth', 0) + 1
        for s in sorted(self.slots, key=lambda s: s.kind == 'arr'):
            s.hv = self.fresh(s, st)
            if s.kind == 'arr':
                hv = {(x.kind, x.key): x.hv for x in self.slots if x.kind != 'arr'}
                for fr_ in self.frames.get((s.kind, s.key), []):
                    r = self.region(fr_, hv, self.t)
                    if r is not None: s.hv = arr_copy(s.hv, r[0], r[1], s.v0, 0)
            if s.kind == 'phi': st.top.env[s.key] = s.hv
            elif s.kind == 'cell':
                o = E.wobj(st, s.key[0])
                if s.hv is UNDEF: o.cells.pop(s.key[1], None)
                else: o.cells[s.key[1]] = (s.size, s.hv)
            else:
                o = E.wobj(st, s.key[0])
                if o.stride is None:
                    o.stride = s.size[1]; E.to_arrays(o)
                o.arrs[s.key[1]] = (s.size[0], s.hv)
        st.extra['outs'] = tuple(s.hv for s in self.slots if s.kind != 'arr' and s.mode == 'lin' and is_int(s.hv) and not isconst(s.hv))[:3]
        return st

    BIG = 1 << 50
    def region(self, fr_, v, t):
        op, f = fr_[0], fr_[1]
        x = f(v, t)
        if x is None or not is_int(x): return None
        return (x, self.BIG) if op == '>=' else (-self.BIG, x)

    def agrees(self, st, A, target, lo, hi):
        """A equals target on the indexes [lo,hi) (provably, under the path condition)"""
        dec = lambda c: c if c in (True, False) else self.E.decide(st, c) is True
        while A is not target:
            if A is None or A.kind in ('base', 'const'): return False
            if A.kind == 'store':
                if not dec(b_or(cmp('<', A.a, lo), cmp('>=', A.a, hi))): return False
            else:
                if dec(b_or(cmp('<=', A.b, lo), cmp('<=', hi, A.a))): pass
                elif A.kind == 'copy' and isconst(A.d) and A.d == 0 and dec(b_and(cmp('<=', A.a, lo), cmp('<=', hi, A.b))):
                    A = A.c; continue
                elif A.kind == 'copy' and isconst(A.d) and A.d == 0 and self.agrees(st, A.c, target, lo, hi): pass
                else: return False
            A = A.prev
        return True

    def frame_candidates(self, backs):
        self.frames = {}
        hat = self.hats()
        v0s = {(s.kind, s.key): s.v0 for s in self.slots}
        for s in self.slots:
            if s.kind != 'arr' or s.fin == 9: continue
            idxs = {}
            for b in backs:
                A = b.mem[s.key[0]].arrs[s.key[1]][1]; n = 0
                while A is not None and A.kind != 'base' and A is not s.hv and n < 50:
                    n += 1
                    if A.kind == 'store': idxs[pkey(A.a)] = A.a
                    A = A.prev
            fs = []; seen = set()
            def add(op, f, desc):
                if desc not in seen: seen.add(desc); fs.append((op, f, desc))
            for ix in idxs.values():
                bad = [i for i in deep_atoms(ix) if i >= self.mark and i != self.tid and i not in hat]
                if bad: continue
                add('>=', lambda v, t, ix=ix: self.eval_poly(hat, ix, v, t), ('>=', pkey(ix)))
                add('<', lambda v, t, ix=ix: self.plus1(self.eval_poly(hat, ix, v, t)), ('<=', pkey(ix)))
                x0 = self.eval_poly(hat, ix, v0s, 0)
                if x0 is not None:
                    add('>=', lambda v, t, x0=x0: padd(x0, 1), ('>', pkey(x0)))
                    add('<', lambda v, t, x0=x0: x0, ('<', pkey(x0)))
            for y in self.slots:
                k = (y.kind, y.key)
                if y.kind == 'arr' or y.mode != 'lin' or not is_int(y.v0) or is_bool(y.v0) or (isconst(y.step) and y.step == 0): continue
                if isconst(y.step) and y.step > 0: add('>=', lambda v, t, k=k: psub(v[k], 1), ('>=s-1', k))
                add('>=', lambda v, t, k=k: v[k], ('>=s', k))
                add('<', lambda v, t, k=k: self.plus1(v[k]), ('<=s', k))
            self.frames[(s.kind, s.key)] = fs[:12]

    def plus1(self, x): return None if x is None else padd(x, 1)
    def hats(self):
        hat = {}
        for s in self.slots:
            if s.mode == 'fresh' and isinstance(s.hv, Poly): hat[list(s.hv.d)[0][0]] = ('i', (s.kind, s.key))
            elif s.mode == 'fresh' and isinstance(s.hv, Ptr) and isinstance(s.hv.off, Poly) and len(s.hv.off.d) == 1: hat[list(s.hv.off.d)[0][0]] = ('p', (s.kind, s.key))
        return hat
    def eval_poly(self, hat, p, v, t):
        m = {self.tid: t}
        occ = atoms_of(p)
        for a, (kk, k) in hat.items():
            if a not in occ: continue
            x = v.get(k, UNDEF)
            if x is UNDEF: return None
            if kk == 'i':
                if not is_int(x): return None
                m[a] = x
            else: m[a] = x.off
        return subst(p, m)

    def fresh(self, s, st):
        E = self.E
        if s.kind == 'arr':
            if s.fin == 9: 
                return arr_const('ptr', UNDEF)
            if s.ety == 'ptr': raise Unsupported('pointer array written in loop')
            return arr_base(s.ety, 'h', nan=s.fin >= 1, inf=s.fin >= 2) if s.ety == 'double' else arr_base(s.ety, 'h')
        v0 = s.v0
        if s.mode == 'lin':
            if isinstance(v0, Ptr): return Ptr(v0.obj, padd(v0.off, pmul(s.step, self.t)), v0.st or s.size)
            if isinstance(v0, D): return D(padd(v0.v, pmul(s.step, self.t)))
            r = padd(v0, pmul(s.step, self.t))
            return r
        if isinstance(v0, Ptr):
            if s.step == 'null': raise Unsupported('pointer changes object in loop')
            o = st.mem.get(v0.obj)
            s.align = o.stride if o is not None and o.stride else self.gep_step(s, st) if s.kind == 'phi' else 1
            if s.align > 1: return Ptr(v0.obj, padd(v0.off, pmul(s.align, new_int('poff'))), v0.st)
            return Ptr(v0.obj, new_int('poff'), v0.st)
        if isinstance(v0, (Fn, Agg, PInt)): raise Unsupported('loop-carried %s' % type(v0).__name__)
        ty = s.ty
        if isinstance(v0, D) or ty == 'double':
            v = new_real('h')
            return D(v, new_bool('h.nan') if s.fin >= 1 else False, *( [z3.And(new_bool('h.pi'))] if s.fin >= 2 else [False]), *( [z3.And(new_bool('h.ni'))] if s.fin >= 2 else [False]))
        if is_bool(v0): return new_bool('h')
        if v0 is UNDEF:
            return UNDEF if s.kind == 'phi' and ty == 'ptr' else E.fresh_of(ty if isinstance(ty, str) else 'i64')
        w = int(ty[1:]) if isinstance(ty, str) and ty.startswith('i') else 64
        if s.bb: return bool_int(new_bool('h'))
        return new_int('h', -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def gep_step(self, s, st):
        """distance by which the loop moves a pointer (checked on every path in scan)"""
        from math import gcd
        g = 0; fn = st.top.fn
        for b in self.B.blocks:
            for ins in fn['blocks'][b]:
                if ins['op'] == 'getelementptr' and ins['base'] == ['v', s.key]:
                    g = gcd(g, abs(int(ins['off'])))
                    for _, sc, _ in ins['vars']: g = gcd(g, abs(int(sc)))
        return g if g > 1 else 1

    def body(self, hdr, quiet=True):
        E = self.E
        saved = E.decided_log; E.decided_log = None
        if quiet: E.quiet += 1
        try:
            s = hdr.copy()
            self.enter(s)
            return E.explore(s, self.B)
        finally:
            E.decided_log = saved
            if quiet: E.quiet -= 1

    def enter(self, s):
        fr = s.top
        fr.blk = self.B.header; fr.ip = len(fr.fn['phis'][self.B.header]); s.pending = None
        fr.prev = None

    # ------------------------------------------------------------------ scan
    def scan(self):
        E = self.E
        E.scan += 1
        try:
            for rnd in range(12):
                hdr = self.make_header()
                self.cmps = {}
                backs, exits = self.scan_body(hdr)
                changed = False
                # memory written
                hmem = hdr.mem
                for b in backs:
                    for oid, ho in hmem.items():
                        bo = b.mem.get(oid)
                        if bo is ho or bo is None: continue
                        changed |= self.diff(oid, ho, bo)
                if changed: continue
                if not backs: return hdr, backs, exits
                # steps
                stable = True
                vals = [self.values(b) for b in backs]
                for s in self.slots:
                    if s.mode != 'fresh' or s.kind == 'arr': continue
                    st_ = self.find_step(s, [v[(s.kind, s.key)] for v in vals])
                    if st_ is not None:
                        s.mode = 'lin'; s.step = st_; stable = False
                if stable: 
                    for s in self.slots:     # alignment guessed for moving pointers must be kept by every path
                        if s.mode == 'fresh' and s.align > 1:
                            for v in vals:
                                d = psub(v[(s.kind, s.key)].off, s.v0.off)
                                if any(k % s.align for k in ([d] if isconst(d) else d.d.values())): raise Unsupported('loop-carried pointer alignment')
                    self.backs = backs
                    return hdr, backs, exits
            raise Unsupported('loop scan did not stabilise')
        finally:
            E.scan -= 1

    def scan_body(self, hdr):
        E = self.E
        old = getattr(E, 'cmphook', None)
        E.cmphook = self
        try: return self.body(hdr)
        finally: E.cmphook = old

    def diff(self, oid, ho, bo):
        ch = False
        if bo.freed != ho.freed: raise Unsupported('object freed in loop')
        if ho.stride != bo.stride:
            # became an array during the body
            if bo.stride is None: raise Unsupported('stride lost')
            for f, (sz, A) in bo.arrs.items():
                ch |= self.need_arr(oid, f, sz, A, bo.stride)
            return ch
        for off, (sz, v) in bo.cells.items():
            h = ho.cells.get(off)
            if h is not None and h[1] is v: continue
            if h is not None and not isinstance(v, tuple) and not isinstance(h[1], tuple) and vkey(h[1]) == vkey(v): continue
            if ('cell', (oid, off)) in self.slotmap: continue
            e = self.entry.mem[oid].cells.get(off)
            v0 = UNDEF
            if e is not None:
                v0 = e[1] if not isinstance(e[1], tuple) else self.E.const_operand(self.entry, e[1][1])
            elif ho.zero:
                v0 = self.E.zero_of(self.E.ety_of(v, sz))
            if e is not None and e[0] != sz: raise Unsupported('cell resized')
            s = Slot('cell', (oid, off), self.E.ety_of(v, sz), v0, sz)
            if v0 is UNDEF and isinstance(v, D): s.ty = 'double'; s.fin = 0
            if v0 is UNDEF and isinstance(v, (Ptr,)): s.ty = 'ptr'
            self.add(s); ch = True
        for f, (sz, A) in bo.arrs.items():
            h = ho.arrs.get(f)
            if h is not None and h[1] is A: continue
            if h is None and A.kind in ('base', 'const'): 
                # materialised by a read: keep it stable across passes
                eo = self.E.wobj(self.entry, oid)
                if f not in eo.arrs and eo.stride in (None, bo.stride):
                    if eo.stride is None: eo.stride = bo.stride; self.E.to_arrays(eo)
                    if f not in eo.arrs: eo.arrs[f] = (sz, A)
                continue
            ch |= self.need_arr(oid, f, sz, A, bo.stride)
        return ch

    def need_arr(self, oid, f, sz, A, stride):
        if ('arr', (oid, f)) in self.slotmap: return False
        eo = self.E.wobj(self.entry, oid)
        if eo.stride is None:
            eo.stride = stride; self.E.to_arrays(eo)
            # cells of this object that were slots are now part of arrays
            for k in [k for k in self.slotmap if k[0] == 'cell' and k[1][0] == oid]:
                self.slots.remove(self.slotmap.pop(k))
        if f not in eo.arrs:
            eo.arrs[f] = (sz, arr_const(A.ety, self.E.zero_of(A.ety)) if eo.zero else arr_default(A.ety, 'arr_' + eo.name))
        s = Slot('arr', (oid, f), A.ety, eo.arrs[f][1], (sz, stride))
        s.ety = A.ety
        if A.ety == 'ptr': s.fin = 9
        # optimistic finiteness: entry content decides the starting level
        if A.ety == 'double': s.fin = self.arr_level(eo.arrs[f][1])
        self.add(s)
        return True

    def arr_level(self, A):
        lv = 0
        while True:
            if A.kind == 'base':
                return max(lv, 2 if A.d is not None else 1 if A.b is not None else 0)
            if A.kind == 'const':
                return max(lv, self.d_level(A.a))
            if A.kind == 'store': lv = max(lv, self.d_level(A.b))
            elif A.kind == 'fill': lv = max(lv, self.d_level(A.c))
            elif A.kind == 'copy': lv = max(lv, self.arr_level(A.c))
            A = A.prev
    def d_level(self, v):
        if not isinstance(v, D): return 2
        if v.fin(): return 0
        if v.pi is False and v.ni is False: return 1
        return 2

    def find_step(self, s, bvals):
        st_ = None
        if s.bb or s.nolin: return None
        for v in bvals:
            h = s.hv
            if isinstance(h, Ptr):
                if not isinstance(v, Ptr) or v.obj != h.obj:
                    if isinstance(v, Ptr): raise Unsupported('loop-carried pointer to another object')
                    raise Unsupported('loop-carried pointer')
                d = psub(v.off, h.off)
            elif isinstance(h, D):
                if not (isinstance(v, D) and v.fin() and h.fin() and isinstance(s.v0, D) and s.v0.fin()): return None
                d = psub(v.v, h.v)
            elif is_int(h) and is_int(v) and is_int(s.v0): d = psub(v, h)
            elif is_bool(h) and is_bool(v):
                return None
            elif h is UNDEF: return None
            else: return None
            if not isconst(d):
                if any(i >= self.mark for i in deep_atoms(d)): return None
            if st_ is None: st_ = d
            elif pkey(st_) != pkey(d): return None
        return st_

    # ------------------------------------------------------------ candidates
    def auto_candidates(self, backs):
        out = []
        def add(name, f): out.append((name, f))
        lin_ints = []; fr_ints = []
        for s in self.slots:
            k = (s.kind, s.key)
            if s.kind == 'arr': continue
            if is_int(s.v0) and is_int(s.hv):
                if s.mode == 'lin': lin_ints.append(s)
                else: fr_ints.append(s)
            elif isinstance(s.v0, Ptr) and s.mode == 'fresh':
                add('ptr>=', lambda v, st, t, k=k, s=s: cmp('>=', v[k].off, s.v0.off))
                add('ptr<=', lambda v, st, t, k=k, s=s: cmp('<=', v[k].off, s.v0.off))
            elif isinstance(s.v0, D) and s.mode == 'fresh' and s.fin == 0 and s.v0.fin():
                add('d>=0', lambda v, st, t, k=k: cmp('>=', v[k].v, 0))
                add('d>=v0', lambda v, st, t, k=k, s=s: cmp('>=', v[k].v, s.v0.v))
                add('d<=v0', lambda v, st, t, k=k, s=s: cmp('<=', v[k].v, s.v0.v))
            elif is_bool(s.v0) and s.mode == 'fresh':
                if s.v0 is True or s.v0 is False:
                    add('b==v0', lambda v, st, t, k=k, s=s: (v[k] if s.v0 else b_not(v[k])))
        for s in fr_ints:
            k = (s.kind, s.key)
            add('i>=v0', lambda v, st, t, k=k, s=s: cmp('>=', v[k], s.v0))
            add('i<=v0', lambda v, st, t, k=k, s=s: cmp('<=', v[k], s.v0))
            add('i>=0', lambda v, st, t, k=k, s=s: cmp('>=', v[k], 0))
            add('i-v0<=t', lambda v, st, t, k=k, s=s: cmp('<=', psub(v[k], s.v0), t))
            for y in lin_ints:
                ky = (y.kind, y.key)
                if isconst(y.step) and y.step == 0: continue
                for op in ('<=', '<', '>=', '>'):
                    add('i%sj' % op, lambda v, st, t, k=k, ky=ky, op=op: cmp(op, v[k], v[ky]))
            for y in fr_ints:
                if y is s: continue
                ky = (y.kind, y.key)
                add('i==j', lambda v, st, t, k=k, ky=ky: cmp('==', v[k], v[ky]))
                add('i<=j', lambda v, st, t, k=k, ky=ky: cmp('<=', v[k], v[ky]))
        # slots written in the body but with the same value at each back edge
        for s in self.slots:
            if s.kind != 'arr' and s.mode == 'fresh' and is_int(s.hv) and s.v0 is UNDEF: pass
        # exit conditions
        hat = {}
        for s in self.slots:
            if s.mode == 'fresh' and isinstance(s.hv, Poly): hat[list(s.hv.d)[0][0]] = ('i', (s.kind, s.key))
            elif s.mode == 'fresh' and isinstance(s.hv, Ptr) and isinstance(s.hv.off, Poly) and len(s.hv.off.d) == 1: hat[list(s.hv.off.d)[0][0]] = ('p', (s.kind, s.key))
            elif s.mode == 'fresh' and isinstance(s.hv, D) and isinstance(s.hv.v, Poly) and len(s.hv.v.d) == 1: hat[list(s.hv.v.d)[0][0]] = ('d', (s.kind, s.key))
        def eval_poly(p, v, t):
            m = {self.tid: t}
            occ = atoms_of(p)
            for a, (kk, k) in hat.items():
                if a not in occ: continue
                x = v[k]
                if x is UNDEF: return None
                if kk == 'i':
                    if not is_int(x): return None
                    m[a] = x
                elif kk == 'p': m[a] = x.off
                else:
                    if not x.fin(): return None
                    m[a] = x.v
            return subst(p, m)
        v0s = {(s.kind, s.key): s.v0 for s in self.slots}
        for p in self.cmps.values():
            bad = [i for i in deep_atoms(p) if i >= self.mark and i != self.tid and i not in hat]
            if bad: continue
            for sg in (1, -1):
                e = pscale(p, sg)
                e0 = eval_poly(e, v0s, 0)
                if e0 is None: continue
                for kk in (0, -1, 1):
                    def f(v, st, t, e=e, e0=e0, kk=kk):
                        x = eval_poly(e, v, t)
                        if x is None: return False
                        return b_or(cmp('>', e0, kk), cmp('<=', x, kk))
                    add('exit', f)
                    def f0(v, st, t, e=e, kk=kk):
                        x = eval_poly(e, v, t)
                        if x is None: return False
                        return b_or(cmp('<=', t, 0), cmp('<=', x, kk))
                    add('exit0', f0)
        # frame candidates for arrays
        ghosts = list(self.entry.ghost)
        for s in self.slots:
            if s.kind != 'arr' or s.fin == 9: continue
            k = (s.kind, s.key)
            A0 = s.v0
            idxs = {}
            for b in backs:
                o = b.mem[s.key[0]]
                A = o.arrs[s.key[1]][1]
                while A is not None and A.kind != 'base' and A is not s.hv:
                    if A.kind == 'store': idxs[pkey(A.a)] = A.a
                    elif A.kind in ('fill', 'copy'): idxs[pkey(A.a)] = A.a; idxs[pkey(A.b)] = A.b
                    A = A.prev
            for g in ghosts:
                def same(v, st, g=g, k=k, A0=A0):
                    try:
                        return v_eq(self.E, arr_read(v[k], g, lambda c: self.E.decide(st, c)), arr_read(A0, g, lambda c: self.E.decide(st, c)))
                    except NeedFork: return False
                add('unchanged', lambda v, st, t, same=same: same(v, st))
                for ix in idxs.values():
                    bad = [i for i in deep_atoms(ix) if i >= self.mark and i != self.tid and i not in hat]
                    if bad: continue
                    for op in ('>=', '<=', '>', '<'):
                        def f(v, st, t, ix=ix, op=op, same=same, g=g):
                            x = eval_poly(ix, v, t)
                            if x is None: return False
                            return b_or(b_not(cmp(op, g, x)), same(v, st))
                        add('frame', f)
                    x0 = eval_poly(ix, v0s, 0)
                    if x0 is not None:
                        for op in ('<', '>'):
                            add('frame0', lambda v, st, t, x0=x0, op=op, same=same, g=g: b_or(b_not(cmp(op, g, x0)), same(v, st)))
        return out

    def user_candidates(self):
        E = self.E; out = []
        h = E.harness[2:]
        for n, f in E.cands.items():
            m = re.match(r'cand_(.*?)__', n)
            if not m or m.group(1) not in (h, 'all') and not (m.group(1).endswith('_') and h.startswith(m.group(1)[:-1])): continue
            d_ = re.match(r'cand_.*?__d(\d)_', n)
            if d_ and int(d_.group(1)) != self.entry.extra.get('depth', 0) + 1: continue
            ptys = f['params'][1:]
            pools = []
            for ty in ptys:
                pool = []; seen = set()
                for s in self.slots:
                    k = (s.kind, s.key)
                    if s.kind == 'arr': continue
                    if ty == 'double' and (isinstance(s.v0, D) or (s.v0 is UNDEF and s.ty == 'double')): 
                        pool.append((k, lambda v, t, k=k: v[k]))
                    elif ty in ('i32', 'i64') and is_int(s.v0):
                        kk = pkey(s.hv)
                        if kk in seen: continue
                        seen.add(kk); pool.append((k, lambda v, t, k=k: v[k]))
                    elif ty in ('i32', 'i64') and isinstance(s.v0, Ptr) and s.v0.obj in self.entry.mem:
                        o = self.entry.mem[s.v0.obj]; sd = o.stride or s.v0.st
                        if sd is None: continue
                        try: kk = pkey(E.exactdiv(s.hv.off, sd))
                        except Unsupported: continue
                        if kk in seen: continue
                        seen.add(kk); pool.append((k, lambda v, t, k=k, sd=sd: E.exactdiv(v[k].off, sd)))
                    elif ty in ('i1',) and is_bool(s.v0): pool.append((k, lambda v, t, k=k: v[k]))
                    elif ty in ('i1',) and s.ty == 'i8' and is_int(s.v0): pool.append((k, lambda v, t, k=k: int_bool(v[k]) if is_int(v[k]) else UNDEF))   # bool kept in a byte
                if ty in ('i32', 'i64'):
                    if pkey(self.t) not in seen: pool.append(('t', lambda v, t: t))
                    for o in self.entry.extra.get('its', ())[-2:] + self.entry.extra.get('outs', ()):      # enclosing loops
                        if ('o', pkey(o)) in [x[0] for x in pool]: continue
                        pool.append((('o', pkey(o)), lambda v, t, o=o: o))
                pools.append(pool)
            n_ = 0
            for combo in itertools.product(*pools):
                if len(ptys) != len({x[0] for x in combo}): continue
                who = [x[0] for x in combo]
                combo = [x[1] for x in combo]
                n_ += 1
                if n_ > 1500: break
                def fm(v, st, t, combo=combo, f=f, who=who):
                    args = [st.ctx] + [c(v, t) for c in combo]
                    for a in args:
                        if a is UNDEF: return False
                    return self.eval_cand(f, args, st)
                out.append((n, fm))
        return out

    def eval_cand(self, f, args, st):
        E = self.E
        try: res = E.eval_pure(st, f, args)
        except (Unsupported, NeedFork) as e:
            if os.environ.get('LDTVC_DEBUG') == '3': print('cand', f['name'], e)
            return False
        alts = []
        for pcd, v, _ in res:
            if isinstance(v, (int, Poly)) and not isinstance(v, bool): v = int_bool(v)
            alts.append(b_and(*pcd, v))
        return b_or(*alts) if alts else False

    # --------------------------------------------------------------- houdini
    def run(self):
        E = self.E
        outer_scan = E.scan > 0
        hdr, backs, exits = self.scan()
        self.E.loopinfo.append((self.fname, len(self.slots))) if not (outer_scan or E.quiet) else None
        if outer_scan:
            return exits
        if not backs:
            # body never returns to the header: a single pass is exact; rerun from entry
            s = self.entry.copy(); s.pending = None
            E.enter_block(s, self.B.header)
            b, e = E.explore(s, self.B)
            if b: raise Unsupported('loop scan inconsistent')
            return e
        t_start = time.time()
        restart = True; guard = 0
        while restart:
            guard += 1
            if guard > 12: raise Unsupported('invariant inference did not converge')
            restart = False
            if self.entry.extra.get('frame'): self.frames = {}; self.frame_candidates(backs)
            cands = self.auto_candidates(backs) + self.user_candidates()
            v0 = {(s.kind, s.key): s.v0 for s in self.slots}
            # finiteness at entry
            for s in self.slots:
                if isinstance(s.v0, D) and s.fin == 0 and not s.v0.fin():
                    if E.decide(self.entry, s.v0.finc()) is not True:
                        s.fin = self.d_level(s.v0)
                if s.kind != 'arr' and s.v0 is UNDEF and s.ty == 'double': pass
            # entry check
            live = []
            seenk = set()
            for n, f in cands:
                c = f(v0, self.entry, 0)
                if c is False: continue
                if c is not True and E.decide(self.entry, c, 1500) is not True: continue
                live.append((n, f))
            nu = [x for x in live if x[0].startswith('cand_')]
            if len(nu) > 3:
                for t, b in self.simulate():
                    bv = self.values(b)
                    for x in nu:
                        if x not in live: continue
                        c = x[1](bv, b, t)
                        if c is True: continue
                        if c is not False:
                            if E.nonlinear_eq(c) and ring.ring_prove(E, b, c): continue
                            r, _ = query(list(b.pc) + [zb(b_not(c))], 400, level=2)
                            if r != 'sat': continue
                        if os.environ.get('LDTVC_DEBUG') == '3': print('  SIMDROP', x[0], x[1].__defaults__[-1], t, str(c)[:400], b.pc)
                        live.remove(x)
            it = 0
            while True:
                it += 1
                hdr = self.make_header()
                hv = {(s.kind, s.key): s.hv for s in self.slots}
                for n, f in live:
                    c = f(hv, hdr, self.t)
                    if c is False: c = z3.BoolVal(False)
                    if c is not True: hdr.pc.append(zb(c))
                    if n.startswith('cand_'): pass
                dd = set(); pcs = []
                for x in hdr.pc:
                    if x.get_id() not in dd: dd.add(x.get_id()); pcs.append(x)
                hdr.pc = pcs
                backs, exits = self.body(hdr)
                # verify steps, objects and finiteness
                for b in backs:
                    bv = self.values(b)
                    for s in self.slots:
                        if s.kind == 'arr': continue
                        x = bv[(s.kind, s.key)]
                        if isinstance(s.hv, Ptr) and (not isinstance(x, Ptr) or x.obj != s.hv.obj): raise Unsupported('loop-carried pointer to another object')
                        if s.mode == 'lin':
                            want = padd(self.off(s.hv), s.step)
                            got = self.off(x)
                            if isinstance(x, D) and not x.fin() and E.decide(b, x.finc()) is not True: ok = False
                            else: ok = pkey(want) == pkey(got) or E.decide(b, cmp('==', want, got)) is True
                            if not ok: s.mode = 'fresh'; s.nolin = True; restart = True
                        elif isinstance(x, D) and s.fin < 2:
                            lv = self.fin_level(b, x)
                            if lv > s.fin: s.fin = lv; restart = True
                        elif s.bb and not (isinstance(x, bool) or is_bool(x)):
                            if x is UNDEF or not is_int(x) or self.E.decide(b, b_and(cmp('>=', x, 0), cmp('<=', x, 1))) is not True: s.bb = False; restart = True
                    for s in self.slots:
                        if s.kind == 'arr' and s.ety == 'double' and s.fin < 2:
                            A = b.mem[s.key[0]].arrs[s.key[1]][1]
                            lv = self.arr_fin(b, A, s.hv, s.fin)
                            if lv > s.fin: s.fin = lv; restart = True
                # everything the body changes must be havocked
                for b in backs:
                    for oid, ho in hdr.mem.items():
                        bo = b.mem.get(oid)
                        if bo is not None and bo is not ho and self.diff(oid, ho, bo): restart = True
                if restart:
                    hdr, backs, exits = self.scan()
                    break
                # preservation
                dropped = False
                for s in self.slots:
                    k = (s.kind, s.key)
                    if not self.frames.get(k): continue
                    keep = []
                    for fr_ in self.frames[k]:
                        ok = True
                        for b in backs:
                            r = self.region(fr_, self.values(b), padd(self.t, 1))
                            A = b.mem[s.key[0]].arrs[s.key[1]][1]
                            if r is None or not self.agrees(b, A, s.v0, r[0], r[1]): ok = False; break
                        if ok: keep.append(fr_)
                    if os.environ.get('LDTVC_DEBUG') == '3': print('FRAMES', self.fname, k, [x[2] for x in self.frames[k]], '->', [x[2] for x in keep])
                    if len(keep) != len(self.frames[k]): self.frames[k] = keep; dropped = True
                if dropped: continue
                for b in backs:
                    bv = self.values(b)
                    t1 = padd(self.t, 1)
                    cs = []
                    for n, f in live:
                        c = f(bv, b, t1)
                        if c is True: continue
                        cs.append(((n, f), c))
                    for (cf, c) in cs:
                        if cf not in live: continue
                        if c is False: r = None
                        else:
                            r = self.prove(b, c, user=cf[0].startswith('cand_'))
                        if r is not True:
                            if os.environ.get('LDTVC_DEBUG') == '3' and cf[0].startswith('cand_'): print('  DROP', cf[0], (cf[1].__defaults__ or [0])[-1], self.fname, str(c)[:600], [str(x) for x in b.pc[-30:]])
                            live.remove(cf); dropped = True
                if not dropped: break
                if it > 30: raise Unsupported('houdini did not converge')
        if os.environ.get('LDTVC_DEBUG'):
            print('LOOP', self.fname, 'slots', [(s.kind, s.key, s.mode, str(s.step)) for s in self.slots], 'invs', [n for n, f in live], 'backs', len(backs), 'exits', len(exits), '%.1fs' % (time.time() - t_start), 'quiet', E.quiet)
        if E.quiet: return exits
        for n, f in live:
            if n.startswith('cand_'): E.used_cands = getattr(E, 'used_cands', set()); E.used_cands.add(n)
        # final pass: obligations of the body are discharged under the invariants
        hdr.pc = [x for x in hdr.pc]
        backs, exits = self.body(hdr, quiet=False)
        return exits

    def simulate(self):
        """states after one and two iterations from the entry (to discard wrong candidates early)"""
        if getattr(self, '_sim', None) is not None: return self._sim
        E = self.E; out = []; cur = [self.entry]
        saved = E.decided_log; E.decided_log = None
        E.quiet += 1
        try:
            for t in (1, 2):
                nxt = []
                for s0 in cur[:4]:
                    s = s0.copy(); s.pending = None
                    s.extra['its'] = self.entry.extra.get('its', ()) + (t - 1,)
                    E.enter_block(s, self.B.header)
                    bs, _ = E.explore(s, self.B)
                    nxt += bs
                for b in nxt:
                    out.append((t, b))
                cur = nxt
        except Unsupported: pass
        finally:
            E.quiet -= 1; E.decided_log = saved
        self._sim = out
        return out

    def prove(self, st, c, user=False):
        E = self.E
        if E.nonlinear_eq(c) and ring.ring_prove(E, st, c): return True
        neg = zb(b_not(c))
        cn = cone(st.pc, neg)
        r, m = query(cn + [neg], 2500 if user else 800, level=2)
        if r == 'unsat': return True
        if r == 'unknown' and user:
            import backends
            x = backends.try_all(cn + [neg], 4000)
            if x is not None: return True
        if r == 'sat' and cn is not st.pc and len(cn) < len(st.pc) and E.decide(st, False if False else True) is not None:
            # infeasible path?
            q, _ = query(list(st.pc), 500)
            if q == 'unsat': return True
        return False

    def off(self, v):
        if isinstance(v, Ptr): return v.off
        if isinstance(v, D): return v.v
        return v

    def fin_level(self, st, x):
        if x.fin(): return 0
        E = self.E
        if E.decide(st, x.finc()) is True: return 0
        if x.pi is False and x.ni is False: return 1
        if E.decide(st, b_not(b_or(x.pi, x.ni))) is True: return 1
        return 2

    def arr_fin(self, st, A, base, lv0):
        lv = 0
        while A is not base:
            if A.kind == 'base':
                return max(lv, 2 if A.d is not None else 1 if A.b is not None else 0)
            if A.kind == 'const': return max(lv, self.fin_level(st, A.a))
            if A.kind == 'store': lv = max(lv, self.fin_level(st, A.b) if isinstance(A.b, D) else 2)
            elif A.kind == 'fill': lv = max(lv, self.fin_level(st, A.c))
            elif A.kind == 'copy': lv = max(lv, self.arr_fin(st, A.c, base, lv0))
            A = A.prev
        return max(lv, 0)

def v_eq(E, a, b):
    if isinstance(a, D): return b_or(b_and(a.nan, b.nan), E.feq(a, b))
    if is_bool(a): return E.b_eq(a, b)
    if is_int(a) and is_int(b): return cmp('==', a, b)
    return vkey(a) == vkey(b)

def cut(E, st, B):
    c = Cut(E, st.copy(), B)
    its = st.extra.get('its', ()); depth = st.extra.get('depth', 0); outs = st.extra.get('outs', ())
    out = c.run()
    for x in out if isinstance(out, list) else []:
        if isinstance(x, State_()): x.extra['its'] = its; x.extra['depth'] = depth; x.extra['outs'] = outs
    return out
def State_():
    import ldtvc
    return ldtvc.State
