"""ldtvc: verification-condition generator for C++ contracts over LLVM IR.

Every run: clang compiles the contract file together with the sources of /repo
it includes; irdump writes the resulting functions as JSON; this module executes
each contract (function h_*) symbolically, cutting loops with inductive
invariants, and hands every obligation to an SMT solver.
"""
import sys, json, re, time, os, copy
import z3
from fractions import Fraction
from terms import *
from values import *
import terms as T
import models, ring

sys.setrecursionlimit(20000)

ENGINE = [None]
PACK = {} # 64-bit words made of two 32-bit values

class PathDone(Exception): pass
class AbortUnroll(Exception): pass
class Budget(Exception): pass
class Prune(Exception): pass

class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'env', 'ret', 'invoke', 'loops', 'visits')
    def __init__(self, fn):
        self.fn = fn; self.blk = 0; self.ip = 0; self.prev = None; self.env = {}; self.ret = None; self.invoke = None
        self.visits = {}
    def copy(self):
        f = Frame(self.fn); f.blk = self.blk; f.ip = self.ip; f.prev = self.prev; f.env = dict(self.env); f.ret = self.ret; f.invoke = self.invoke
        f.visits = dict(self.visits)
        return f

class State:
    __slots__ = ('pc', 'mem', 'frames', 'tape', 'nobj', 'pending', 'exc', 'ghost', 'log', 'bounded', 'dec', 'havoced', 'ctx', 'spec', 'extra')
    def __init__(self):
        self.pc = []; self.mem = {}; self.frames = []; self.tape = []; self.pending = None; self.exc = None; self.ghost = []; self.log = None
        self.bounded = False; self.dec = None; self.havoced = False; self.ctx = None; self.spec = 0; self.extra = {}
    def copy(self):
        s = State()
        s.pc = list(self.pc); s.mem = dict(self.mem); s.frames = [f.copy() for f in self.frames]; s.tape = list(self.tape)
        s.pending = self.pending; s.exc = self.exc; s.ghost = list(self.ghost); s.bounded = self.bounded; s.dec = self.dec; s.havoced = self.havoced; s.ctx = self.ctx; s.spec = self.spec
        s.extra = dict(self.extra)
        return s
    @property
    def top(self): return self.frames[-1]

class Boundary:
    def __init__(self, depth, header, blocks, loop):
        self.depth = depth; self.header = header; self.blocks = blocks; self.loop = loop

class Obligation:
    __slots__ = ('name', 'where', 'status', 'time', 'tape', 'how', 'havoced', 'kind')
    def __init__(self, name, where, kind='post'):
        self.name = name; self.kind = kind; self.where = where; self.status = None; self.time = 0; self.tape = None; self.how = None; self.havoced = False

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.functions = d['functions']; self.globals = d['globals']
        for n, f in self.functions.items():
            f['name'] = n
            f['short'] = re.sub(r'\(.*', '', f['dem'])
            for L in f.get('loops', []): L['set'] = set(L['blocks'])
            f['hdr'] = {}
            for L in f.get('loops', []): f['hdr'][L['header']] = L
            if 'blocks' in f:
                f['phis'] = [[i for i in b if i['op'] == 'phi'] for b in f['blocks']]

class Engine:
    def __init__(self, mod, opts=None):
        ENGINE[0] = self
        self.mod = mod
        self.opts = opts or {}
        self.obls = []
        self.covers = {}
        self.nextobj = [1]
        self.gobj = {}
        self.deadline = None
        self.qtimeout = self.opts.get('qtimeout', 8000)
        self.scan = 0
        self.quiet = 0
        self.funcs_used = {}
        self.assumptions = set()
        self.trusted = set()
        self.loopinfo = []
        self.cands = {n: f for n, f in mod.functions.items() if n.startswith('cand_') and 'blocks' in f}
        self.decided_log = None
        self.harness = None
        self.maxsteps = self.opts.get('maxsteps', 3000000)
        self.steps = 0
        self.unknown_paths = []
        self.specdefs = {}
        self.cache_dec = {}
        self.entry_snapshots = {}
        self.boundedloops = 0
        self.npaths = 0
        self.replaced = set()
        self.cmpinfo = {}

    # ---------------------------------------------------------------- memory
    def new_obj(self, st, name, size, kind):
        i = self.nextobj[0]; self.nextobj[0] += 1
        st.mem[i] = Obj(i, name, size, kind)
        return i

    def wobj(self, st, i):
        o = st.mem[i].copy(); st.mem[i] = o
        return o

    def global_obj(self, st, name):
        if name in self.gobj:
            i = self.gobj[name]
        else:
            i = self.nextobj[0]; self.nextobj[0] += 1
            self.gobj[name] = i
        if i not in st.mem:
            g = self.mod.globals.get(name)
            o = Obj(i, name, g['size'] if g else None, 'global')
            if g and 'init' in g and g['const']:
                o.const = True
            if g and 'init' in g:
                for off, sz, ty, op in g['init']:
                    o.cells[off] = (sz, ('lazy', op))
            st.mem[i] = o
        return i

    def fresh_of(self, ty, name='u'):
        if ty == 'double' or ty == 'float':
            v = new_real(name)
            return D(v, new_bool(name + '.nan'), False, False)
        if ty == 'i1': return new_bool(name)
        if isinstance(ty, str) and re.match(r'i\d+$', ty):
            w = int(ty[1:]); return new_int(name, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return UNDEF

    def zero_of(self, ty):
        if ty in ('double', 'float'): return D(0)
        if ty == 'i1': return False
        if ty == 'ptr': return NULL
        if isinstance(ty, str): return 0
        if ty[0] == 'struct': return Agg([self.zero_of(t) for o, t in ty[1:]])
        if ty[0] == 'array': return Agg([self.zero_of(ty[3]) for _ in range(ty[1])])
        raise Unsupported('zero of %s' % ty)

    def decide(self, st, c, timeout=700):
        """True/False if forced by the path condition, else None"""
        if c is True or c is False: return c
        zc = zb(c)
        if z3.is_true(zc): return True
        if z3.is_false(zc): return False
        k = (zc.get_id(), tuple(x.get_id() for x in st.pc))
        if k in self.cache_dec: return self.cache_dec[k][0]
        T._KEEP.append(zc)
        cn = cone(st.pc, zc)
        r = None
        q, _ = query(cn + [z3.Not(zc)], timeout)
        if q == 'unsat': r = True
        else:
            q, _ = query(cn + [zc], timeout)
            if q == 'unsat': r = False
        self.cache_dec[k] = (r, list(st.pc))
        return r

    def check_mem(self, st, p, size, what, ins):
        if not isinstance(p, Ptr): raise Unsupported('access through non-pointer %r' % (p,))
        if p.obj == 0:
            self.oblige(st, False, 'null-dereference', ins, kind='mem'); raise Prune()
        o = st.mem.get(p.obj)
        if o is None: raise Unsupported('unknown object %s' % p.obj)
        if o.freed:
            self.oblige(st, False, 'use-after-free(%s)' % o.name, ins, kind='mem'); raise Prune()
        if o.size is not None:
            lo = cmp('>=', p.off, 0)
            hi = cmp('<=', padd(p.off, size), o.size)
            c = b_and(lo, hi)
            if c is not True:
                self.oblige(st, c, 'in-bounds(%s)' % (re.sub(r'![0-9]+', '', o.name)), ins, kind='mem')
        return o

    def offsplit(self, o, p, size, ety):
        """symbolic access: returns (field, idx) under the object's stride"""
        if o.stride is None:
            st_ = p.st
            if st_ is None:
                from math import gcd
                g = 0
                if isinstance(p.off, Poly):
                    for m, c in p.off.d.items():
                        if m: g = gcd(g, abs(int(c)))
                st_ = g or size
                if st_ % size == 0 and st_ <= 16: st_ = size if st_ > size and o.kind == 'heap' else st_
            o.stride = st_
            self.to_arrays(o)
        s = o.stride
        off = p.off
        c = off if isconst(off) else off.d.get((), 0)
        f = int(c) % s
        q = psub(off, f)
        if isconst(q): return f, q // s
        for m, k in q.d.items():
            if k % s: 
                raise Unsupported('stride mismatch %s in %s (stride %d)' % (p.off, o.name, s))
        return f, pmul(q, Fraction(1, s)) if s != 1 else q

    def to_arrays(self, o):
        cells = o.cells; o.cells = {}
        for off, (sz, v) in sorted(cells.items()):
            if isinstance(v, tuple) and v[0] == 'lazy': v = self.const_operand(None, v[1])
            f = off % o.stride; i = off // o.stride
            ety = self.ety_of(v, sz)
            A = o.arrs.get(f)
            if A is None or A[0] != sz:
                A = (sz, arr_default(ety, 'arr_' + o.name) if not o.zero else arr_const(ety, self.zero_of(ety)))
            o.arrs[f] = (sz, arr_store(A[1], i, v))

    def ety_of(self, v, sz):
        if isinstance(v, D): return 'double'
        if isinstance(v, (Ptr, Fn)): return 'ptr'
        return 'i%d' % (sz * 8)

    def load(self, st, p, ty, ins=None):
        size = tsize(ty)
        o = self.check_mem(st, p, size, 'load', ins)
        if isinstance(ty, list):
            if ty[0] == 'struct': return Agg([self.load(st, Ptr(p.obj, padd(p.off, o2)), t, ins) for o2, t in ty[1:]])
            raise Unsupported('load of %s' % ty)
        if isconst(p.off) and o.stride is None:
            off = int(p.off)
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                v = c[1]
                if isinstance(v, tuple) and v[0] == 'lazy':
                    v = self.const_operand(st, v[1])
                    return self.coerce(v, ty)
                if v is not UNDEF: return self.coerce(v, ty)
                return self.init_cell(st, p.obj, off, size, ty)
            if c is not None and c[0] != size:
                return self.load_mismatch(st, o, off, size, ty)
            # overlapping?
            for k, (sz, v) in o.cells.items():
                if k < off + size and off < k + sz:
                    return self.load_mismatch(st, o, off, size, ty)
            return self.init_cell(st, p.obj, off, size, ty)
        if o.stride is None:
            o = self.wobj(st, p.obj)
        f, idx = self.offsplit(o, p, size, ty)
        A = o.arrs.get(f)
        if A is None:
            o = self.wobj(st, p.obj)
            A = (size, arr_const(ty, self.zero_of(ty)) if o.zero else arr_default(ty, 'arr_' + o.name))
            o.arrs[f] = A
        if A[0] != size: raise Unsupported('mixed-size access in %s' % o.name)
        if A[1].kind == 'const' and A[1].a is UNDEF and ty != 'ptr':
            o = self.wobj(st, p.obj); A = (size, arr_default(ty, 'arr_' + o.name)); o.arrs[f] = A
        v = arr_read(A[1], idx, lambda c: self.decide(st, c))
        return self.coerce(v, ty)

    def load_mismatch(self, st, o, off, size, ty):
        # reading part of a zero / a constant int
        for k, (sz, v) in o.cells.items():
            if k <= off and off + size <= k + sz and isinstance(v, int) and not isinstance(v, bool):
                b = (v >> (8 * (off - k))) & ((1 << (8 * size)) - 1)
                if ty == 'ptr':
                    if b == 0: return NULL
                elif ty == 'double':
                    return d_const(b)
                else:
                    if b >= 1 << (8 * size - 1): b -= 1 << (8 * size)
                    return b
        # halves of a 64-bit word
        if ty == 'i32':
            for k, (sz, v) in o.cells.items():
                if sz == 8 and off in (k, k + 4) and isinstance(v, Poly): return self.half(st, v, off == k + 4)
        if ty == 'i64':
            a, b = o.cells.get(off), o.cells.get(off + 4)
            if a and b and a[0] == b[0] == 4 and all(isinstance(x[1], (int, Poly)) and not isinstance(x[1], bool) for x in (a, b)) and not (isconst(a[1]) and isconst(b[1])):
                v = padd(self.unsigned(st, a[1], 32), pscale(b[1], 1 << 32))
                if isinstance(v, Poly): PACK[v.key()] = (a[1], b[1])
                return v
        # assemble from smaller constants
        tot = 0; cov = 0
        for k, (sz, v) in o.cells.items():
            if off <= k and k + sz <= off + size and isinstance(v, int):
                tot |= (v & ((1 << 8 * sz) - 1)) << (8 * (k - off)); cov += sz
        if cov == size and ty.startswith('i'):
            if tot >= 1 << (8 * size - 1): tot -= 1 << (8 * size)
            return tot
        raise Unsupported('type-punned load in %s+%d' % (o.name, off))

    def half(self, st, v, high):
        if v.key() in PACK: return PACK[v.key()][1 if high else 0]
        return self.wrap(st, idiv_floor(v, 1 << 32)[0] if high else v, 32)

    def init_cell(self, st, oid, off, size, ty):
        o = self.wobj(st, oid)
        v = self.zero_of(ty) if o.zero else self.fresh_of(ty, 'uninit')
        if v is not UNDEF: o.cells[off] = (size, v)
        return v

    def coerce(self, v, ty):
        if v is UNDEF: return v
        if ty == 'i1' and not isinstance(v, (bool, z3.BoolRef)):
            return int_bool(v) if isinstance(v, (int, Poly)) else v
        if ty == 'ptr' and isinstance(v, int) and v == 0: return NULL
        if ty == 'double' and isinstance(v, int) and not isinstance(v, bool):
            return d_const(v & ((1 << 64) - 1))
        if isinstance(ty, str) and ty.startswith('i') and isinstance(v, (bool, z3.BoolRef)) and ty != 'i1':
            return bool_int(v)
        if isinstance(ty, str) and ty.startswith('i') and isinstance(v, D):
            if v.fin() and isconst(v.v) and v.v == 0: return 0
            raise Unsupported('double read as int')
        if isinstance(ty, str) and ty.startswith('i') and isinstance(v, Ptr):
            if v.obj == 0: return 0
            return PInt(v)
        if ty == 'double' and isinstance(v, Poly): raise Unsupported('int read as double')
        return v

    def store(self, st, p, v, ty, ins=None):
        size = tsize(ty)
        o = self.check_mem(st, p, size, 'store', ins)
        if isinstance(ty, list):
            if ty[0] == 'struct' and isinstance(v, Agg):
                for (o2, t), x in zip(ty[1:], v.e): self.store(st, Ptr(p.obj, padd(p.off, o2)), x, t, ins)
                return
            raise Unsupported('store of %s' % ty)
        if ty == 'i1': v = bool_int(v)
        o = self.wobj(st, p.obj)
        if isconst(p.off) and o.stride is None:
            off = int(p.off)
            for k in [k for k, (sz, _) in o.cells.items() if k != off and k < off + size and off < k + sz]:
                del o.cells[k]
            o.cells[off] = (size, v)
            return
        f, idx = self.offsplit(o, p, size, ty)
        A = o.arrs.get(f)
        if A is None or (A[1].kind == 'const' and A[1].a is UNDEF and ty != 'ptr'):
            A = (size, arr_const(ty, self.zero_of(ty)) if o.zero else arr_default(ty, 'arr_' + o.name))
        if A[0] != size: raise Unsupported('mixed-size store in %s' % o.name)
        o.arrs[f] = (size, arr_store(A[1], idx, v))

    # memory block operations
    def memset(self, st, p, byte, n, ins):
        if isconst(n) and n == 0: return
        o = self.check_mem(st, p, n, 'memset', ins)
        o = self.wobj(st, p.obj)
        if not isconst(byte): raise Unsupported('memset symbolic byte')
        byte = int(byte) & 255
        if isconst(n) and isconst(p.off) and o.stride is None:
            off, n = int(p.off), int(n)
            for k in [k for k, (sz, _) in o.cells.items() if k < off + n and off < k + sz]: del o.cells[k]
            if off == 0 and isinstance(o.size, int) and n == o.size and byte == 0:
                o.zero = True; return
            if n > 4096: raise Unsupported('large memset')
            # words of 8 then 4 then 1 bytes: reads of a smaller size are handled by load_mismatch
            v = int.from_bytes(bytes([byte]) * n, 'little')
            o.cells[off] = (n, v)
            return
        if byte != 0: raise Unsupported('symbolic memset nonzero')
        if o.stride is None and not o.cells and not o.arrs and pkey(p.off) == 0 and (o.size is None or pkey(psub(o.size, n)) == 0):
            o.zero = True; return
        if o.stride is None:
            s = p.st or self.stride_of(n) ; o.stride = s; self.to_arrays(o)
        s = o.stride
        lo = self.exactdiv(p.off, s); hi = self.exactdiv(padd(p.off, n), s)
        for f, (sz, A) in list(o.arrs.items()):
            o.arrs[f] = (sz, arr_fill(A, lo, hi, self.zero_of(A.ety)))
        if not o.arrs:
            # element type not known yet
            if pkey(lo) == 0 and o.size is not None and self.decide(st, cmp('==', psub(o.size, n), 0)) is True: o.zero = True
            else:
                ety = {8: 'double', 4: 'i32', 1: 'i8'}.get(s)
                if ety is None: raise Unsupported('memset on untyped')
                o.arrs[0] = (s, arr_fill(arr_default(ety, 'arr_' + o.name), lo, hi, self.zero_of(ety)))

    def stride_of(self, n):
        from math import gcd
        g = 0
        for m, c in (n.d.items() if isinstance(n, Poly) else [((), n)]): g = gcd(g, int(abs(c)))
        for s in (8, 4, 2, 1):
            if g % s == 0: return s

    def exactdiv(self, p, s):
        if s == 1: return p
        if isconst(p):
            if p % s: raise Unsupported('misaligned block')
            return p // s
        for m, c in p.d.items():
            if c % s: raise Unsupported('misaligned block')
        return pscale(p, Fraction(1, s))

    def memcpy(self, st, d, s, n, ins):
        if isconst(n) and n == 0: return
        so = self.check_mem(st, s, n, 'memcpy', ins)
        do = self.check_mem(st, d, n, 'memcpy', ins)
        if isconst(n) and isconst(d.off) and isconst(s.off) and so.stride is None and do.stride is None:
            n, a, b = int(n), int(s.off), int(d.off)
            items = [(k - a, sz, v) for k, (sz, v) in so.cells.items() if a <= k and k + sz <= a + n]
            part = [k for k, (sz, v) in so.cells.items() if k < a + n and a < k + sz and not (a <= k and k + sz <= a + n)]
            if part:
                for k in part:
                    sz, v = so.cells[k]
                    if isinstance(v, int) and not isinstance(v, bool):
                        l = max(k, a); h = min(k + sz, a + n)
                        items.append((l - a, h - l, (v >> (8 * (l - k))) & ((1 << 8 * (h - l)) - 1)))
                    else: raise Unsupported('partial memcpy')
            do = self.wobj(st, d.obj)
            for k in [k for k, (sz, _) in do.cells.items() if k < b + n and b < k + sz]: del do.cells[k]
            for k, sz, v in items: do.cells[b + k] = (sz, v)
            if so.zero and not do.zero:
                if not items and n <= 4096: do.cells[b] = (n, 0)
                elif items: self.assumptions.add('partial copy of zeroed memory')
            return
        so = self.wobj(st, s.obj)
        if so.stride is None:
            so.stride = s.st or d.st or do.stride or self.stride_of(n); self.to_arrays(so)
        if s.obj == d.obj: do = so
        else: do = self.wobj(st, d.obj)
        if do.stride is None:
            do.stride = so.stride; self.to_arrays(do)
        if do.stride != so.stride: raise Unsupported('memcpy stride mismatch')
        S = so.stride
        lo = self.exactdiv(d.off, S); slo = self.exactdiv(s.off, S); cnt = self.exactdiv(n, S)
        if not so.arrs and not so.zero:
            ety = do.arrs[0][1].ety if 0 in do.arrs else {8: 'double', 4: 'i32', 1: 'i8'}.get(S)
            so.arrs[0] = (tsize(ety), arr_default(ety, 'arr_' + so.name))
        srcs = dict(so.arrs)
        if so.zero:
            for f, (sz, A) in do.arrs.items():
                if f not in srcs: srcs[f] = (sz, arr_const(A.ety, self.zero_of(A.ety)))
        for f, (sz, A) in srcs.items():
            DA = do.arrs.get(f)
            if DA is None: DA = (sz, arr_const(A.ety, self.zero_of(A.ety)) if do.zero else arr_default(A.ety, 'arr_' + do.name))
            do.arrs[f] = (sz, arr_copy(DA[1], lo, padd(lo, cnt), A, psub(slo, lo)))

    # ---------------------------------------------------------------- operands
    def const_operand(self, st, op):
        return self.operand(st, op, None)

    def operand(self, st, op, env):
        k = op[0]
        if k == 'v': 
            return env[op[1]]
        if k == 'c':
            v = int(op[2])
            if op[1] == 1: return v != 0
            return v
        if k == 'f': return d_const(int(op[1]))
        if k == 'null': return NULL
        if k == 'fn': return Fn(op[1])
        if k == 'g':
            if st is None: raise Unsupported('global in constant')
            return Ptr(self.global_obj(st, op[1]), op[2])
        if k == 'undef':
            t = op[1]
            if isinstance(t, list) and t[0] == 'struct': return Agg([UNDEF] * (len(t) - 1))
            if t == 'i1': return False
            return UNDEF
        if k == 'zero': return self.zero_of(op[1])
        if k == 'agg':
            return Agg([self.operand(st, x, env) for x in op[2]])
        if k == 'md': return None
        raise Unsupported('operand %s' % (op,))

    # ---------------------------------------------------------------- obligations
    def where(self, st, ins):
        f = st.top.fn['short'] if st.frames else '?'
        for fr in reversed(st.frames):
            if not fr.fn['name'].startswith('h_'):
                f = fr.fn['short']; break
        return f

    def oblige(self, st, c, name, ins, kind='post', soft=False):
        if st.spec:
            if c is False: raise Prune()
            return
        if self.quiet:
            # in scan and invariant-inference passes obligations are assumed; the final pass proves them
            if c is False: raise Prune()
            if c is not True and c is not False: st.pc.append(zb(c))
            return
        ob = Obligation(name, self.where(st, ins) if kind == 'mem' else '', kind)
        ob.havoced = st.havoced
        t0 = time.time()
        if c is True:
            ob.status = 'proved'; ob.how = 'syntactic'
        else:
            neg = zb(b_not(c))
            pcs = st.pc if c is False else cone(st.pc, neg)
            if self.nonlinear_eq(c) and ring.ring_prove(self, st, c): res, m = 'unsat', None; self.last_how = 'ring rewriting + z3'
            else: res, m = self.solve(list(pcs) + [neg])
            if res == 'unsat': ob.status = 'proved'; ob.how = self.last_how
            elif res == 'sat':
                # confirm the whole path condition
                res2, m2 = query(list(st.pc) + [neg], self.qtimeout, level=2)
                if res2 == 'unsat': ob.status = 'proved'; ob.how = 'z3'
                else:
                    ob.status = 'failed'
                    ob.tape = self.model_tape(st, neg, m2 if m2 is not None else m)
                    if os.environ.get('LDTVC_DEBUG'):
                        print('FAILED', name, self.where(st, ins), 'goal', c); 
                        if os.environ['LDTVC_DEBUG'] == '2':
                            for x in st.pc: print('   pc', x)
                            print(m2)
            else: ob.status = 'unknown'
        ob.time = time.time() - t0
        if ob.status != 'proved' and c is not True and os.environ.get('LDTVC_DEBUG'):
            print('OBL', ob.status, name, self.where(st, ins), str(c)[:1500], 'pc', len(st.pc))
        self.obls.append(ob)
        if c is not True and c is not False: st.pc.append(zb(c))
        if c is False: raise Prune()

    def nonlinear_eq(self, c):
        st = [c]; n = 0
        while st and n < 200:
            x = st.pop(); n += 1
            if x is True or x is False: continue
            p = T.EQPOLY.get(x.get_id())
            if p is not None:
                if any(len(m) > 1 or any((ATOMS[i].meta or (0,))[0] in ('inv', 'invp', 'spec') for i in m) for m in p.d): return True
            elif z3.is_and(x) or z3.is_or(x) or z3.is_not(x): st += x.children()
        return False

    def solve(self, asserts):
        self.last_how = 'z3'
        res, m = query(asserts, min(2500, self.qtimeout), level=2)
        if res == 'unknown':
            import backends
            r2 = backends.try_all(asserts, self.qtimeout)
            if r2 is not None: res = r2[0]; self.last_how = r2[1]
        return res, m

    # extract an input tape from a model
    def model_tape(self, st, neg, m0):
        sizes = [t[1] for t in st.tape if t[0] in ('A', 'N', 'P', 'I')]
        sizes = [s for s in sizes if not isconst(s)]
        m = m0
        small = []
        for e in st.tape:
            if e[0] == 'r' : small.append(z3.And(zreal(e[1]) <= 1000, zreal(e[1]) >= -1000))
        for k in (3, 6, 12, 40):
            cs = [zb(cmp('<=', s, k)) for s in sizes]
            r, mm = query(list(st.pc) + [neg] + cs + small, 3000, level=2)
            if r == 'sat' and mm is not None: m = mm; break
            if not sizes: break
        if m is None: return None
        try: return self.tape_from(st, m)
        except Exception as e: return None

    def ev_int(self, m, p):
        if isconst(p): return int(p)
        v = m.eval(zint(p), model_completion=True)
        return v.as_long()
    def ev_real(self, m, p):
        if isconst(p): return float(p)
        v = m.eval(zreal(p), model_completion=True)
        if z3.is_algebraic_value(v): v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    def ev_bool(self, m, b):
        if b is True or b is False: return b
        return z3.is_true(m.eval(b, model_completion=True))
    def ev_d(self, m, d):
        if self.ev_bool(m, d.nan): return float('nan')
        if self.ev_bool(m, d.pi): return float('inf')
        if self.ev_bool(m, d.ni): return float('-inf')
        return self.ev_real(m, d.v)
    def tape_from(self, st, m):
        out = []
        for e in st.tape:
            if e[0] == 'i': out.append(self.ev_int(m, e[1]))
            elif e[0] == 'r': out.append(self.ev_real(m, e[1]))
            elif e[0] == 'd': out.append(self.ev_d(m, e[1]))
            elif e[0] == 'b': out.append(int(self.ev_bool(m, e[1])))
            else:
                n = self.ev_int(m, e[1])
                if n > 2000: return None
                A = e[2]
                for k in range(n):
                    v = arr_read(A, k)
                    out.append(self.ev_d(m, v) if isinstance(v, D) else self.ev_int(m, v))
        return out

    # ---------------------------------------------------------------- running
    def run_harness(self, name, budget=None):
        self.harness = name
        self.deadline = time.time() + (budget or 600)
        f = self.mod.functions[name]
        st = State()
        fr = Frame(f); st.frames.append(fr)
        try:
            self.explore(st, None)
        except Budget as e:
            self.unknown_paths.append('budget exhausted: %s' % e)
        return self.obls

    def explore(self, st0, bnd):
        """run st0 to completion; returns (backs, exits) relative to bnd"""
        work = [st0]; backs = []; exits = []
        while work:
            st = work.pop()
            if time.time() > self.deadline: raise Budget('time')
            try:
                ev = self.run(st, bnd)
            except Prune:
                continue
            except Unsupported as e:
                if bnd is not None: raise
                self.unknown_paths.append('%s: %s' % (self.where(st, None), e)); 
                if os.environ.get('LDTVC_DEBUG'):
                    print('UNSUPPORTED', e, 'in', [f.fn['short'] for f in st.frames], st.top.blk, st.top.ip, st.top.fn['blocks'][st.top.blk][st.top.ip] if 'blocks' in st.top.fn and st.top.ip < len(st.top.fn['blocks'][st.top.blk]) else '')
                continue
            k = ev[0]
            if k == 'fork': work.extend(ev[1])
            elif k == 'back': backs.append(st)
            elif k == 'exit': exits.append(st)
            elif k == 'done': self.npaths += 1
        return backs, exits

    def fork(self, st, c, timeout=700):
        """split on condition; returns list of (bool, state)"""
        d = self.decide(st, c, timeout)
        if d is not None: return [(d, st)]
        s2 = st.copy()
        st.pc.append(zb(c)); s2.pc.append(zb(b_not(c)))
        return [(True, st), (False, s2)]

    def run(self, st, bnd):
        """execute until an event"""
        while True:
            self.steps += 1
            if self.steps > self.maxsteps: raise Budget('steps')
            if st.pending is not None:
                kind = st.pending[0]
                if kind == 'goto':
                    r = self.arrive(st, st.pending[1], bnd)
                    if r is not None: return r
                    continue
                if kind == 'resume':     # state produced by an inner loop: re-examine against this boundary
                    st.pending = None
                    if bnd is not None and len(st.frames) < bnd.depth: return ('exit',)
                    continue
            if not st.frames: return ('done',)
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.blk][fr.ip]
            op = ins['op']
            h = getattr(self, 'op_' + op, None)
            if h is None: raise Unsupported('instruction ' + op)
            try:
                r = h(st, fr, ins)
            except NeedFork as nf:
                alts = self.fork(st, nf.c)
                if len(alts) == 1:
                    # decided: assert it syntactically by substituting is not possible; retry with the fact cached
                    st.pc.append(zb(nf.c if alts[0][0] else b_not(nf.c)))
                    raise Unsupported('undecidable pointer selection')
                return ('fork', [a[1] for a in alts])
            if r is None:
                fr.ip += 1
                continue
            if r == 'stay': continue
            if isinstance(r, tuple) and r[0] == 'fork': return r
            if isinstance(r, tuple) and r[0] == 'returned':
                if bnd is not None and len(st.frames) < bnd.depth:
                    if st.pending is None: st.pending = ('resume',)
                    return ('exit',)
                continue
            if r == 'done': return ('done',)

    def arrive(self, st, target, bnd):
        """control transfer to block `target` of the top frame"""
        fr = st.top
        st.pending = None
        if bnd is not None and len(st.frames) == bnd.depth:
            if target == bnd.header:
                st.pending = ('goto', target); return ('back',)
            if target not in bnd.blocks:
                st.pending = ('goto', target); return ('exit',)
        L = fr.fn['hdr'].get(target)
        if L is not None and fr.prev not in L['set']:
            # entering a loop from outside
            outs = self.handle_loop(st, L, bnd)
            return ('fork', outs)
        self.enter_block(st, target)
        return None

    def phi_values(self, st, target):
        fr = st.top
        out = []
        for p in fr.fn['phis'][target]:
            for b, o in p['inc']:
                if b == fr.prev:
                    out.append((p, self.operand(st, o, fr.env))); break
            else: raise Unsupported('phi edge')
        return out

    def enter_block(self, st, target, vals=None):
        fr = st.top
        vals = vals if vals is not None else self.phi_values(st, target)
        for p, v in vals: fr.env[p['id']] = v
        fr.blk = target
        n = len(fr.fn['phis'][target])
        fr.ip = n

    # ---------------------------------------------------------------- loops
    def handle_loop(self, st, L, bnd):
        fr = st.top
        depth = len(st.frames)
        B = Boundary(depth, L['header'], L['set'], L)
        # 1. unrolling when the trip count is concrete
        if self.opts.get('bmc'):
            return self.unroll(st.copy(), B)
        if not self.scan or st.bounded:
            snap = (len(self.obls), len(self.unknown_paths))
            try:
                return self.unroll(st.copy(), B)
            except AbortUnroll:
                del self.obls[snap[0]:]; del self.unknown_paths[snap[1]:]
        else:
            try:
                return self.unroll(st.copy(), B)
            except AbortUnroll: pass
        import loops
        return loops.cut(self, st, B)

    def unroll(self, st, B):
        cap = self.opts.get('unroll', 200)
        states = [st]; exits = []
        bmc = self.opts.get('bmc')
        forced = st.bounded or bmc
        saved = self.decided_log
        try:
            D_all = None
            it = 0
            while states:
                it += 1
                if bmc and it > bmc: self.bmc_cut = True; break
                if it > cap: 
                    if forced: raise Budget('unroll cap')
                    raise AbortUnroll()
                if len(states) > 64 and not forced: raise AbortUnroll()
                nxt = []
                for s in states:
                    self.decided_log = (B, {})
                    s.pending = None
                    self.enter_block(s, B.header)
                    bk, ex = self.explore(s, B)
                    exits += ex; 
                    log = self.decided_log[1]
                    dec = {k for k, v in log.items() if v}
                    und = {k for k, v in log.items() if not v}
                    dec -= und
                    if bk and not forced:
                        D_all = dec if D_all is None else (D_all & dec)
                        if not D_all: raise AbortUnroll()
                    elif not bk and not forced and it == 1 and und and not dec:
                        pass
                    nxt += bk
                states = nxt
        finally:
            self.decided_log = saved
        for e in exits:
            pass
        return exits

    def note_cmp(self, st, fr, ins, c):
        h = getattr(self, 'cmphook', None)
        if h is None or len(st.frames) != h.B.depth or fr.blk not in h.B.blocks: return
        if not any(s not in h.B.blocks for s in (ins['t'], ins['f'])): return
        op = ins['cond']
        info = self.cmpinfo.get(c.get_id()) if isinstance(c, z3.BoolRef) else None
        if info is None and isinstance(c, z3.BoolRef):
            for ch in ([c.arg(0)] if z3.is_not(c) else c.children()):
                i2 = self.cmpinfo.get(ch.get_id())
                if i2 is not None: h.cmps[pkey(i2)] = i2
        if info is not None: h.cmps[pkey(info)] = info

    def log_branch(self, st, fr, ins, concrete):
        if self.decided_log is None: return
        B, log = self.decided_log
        if len(st.frames) != B.depth or fr.blk not in B.blocks: return
        succ = [ins['t'], ins['f']] if 'f' in ins else [ins['t']]
        if any(s not in B.blocks for s in succ):
            k = (fr.blk)
            log[k] = log.get(k, True) and concrete

    # ---------------------------------------------------------------- instructions
    def goto(self, st, fr, target):
        fr.prev = fr.blk
        st.pending = ('goto', target)
        return 'stay'

    def op_br(self, st, fr, ins):
        if 'cond' not in ins: return self.goto(st, fr, ins['t'])
        c = self.operand(st, ins['cond'], fr.env)
        if c is UNDEF: raise Unsupported('branch on undefined value (line %s)' % ins.get('ln'))
        if isinstance(c, (int, Poly)) and not isinstance(c, bool): c = int_bool(c)
        if c is True or c is False:
            self.log_branch(st, fr, ins, True)
            return self.goto(st, fr, ins['t'] if c else ins['f'])
        self.log_branch(st, fr, ins, False)
        self.note_cmp(st, fr, ins, c)
        out = []
        for v, s in self.fork(st, c):
            f2 = s.top
            self.goto(s, f2, ins['t'] if v else ins['f'])
            out.append(s)
        if len(out) == 1: return 'stay' if out[0] is st else ('fork', out)
        return ('fork', out)

    def op_switch(self, st, fr, ins):
        v = self.operand(st, ins['cond'], fr.env)
        if isinstance(v, (bool, z3.BoolRef)): v = bool_int(v)
        out = []; cur = st
        for cv, blk in ins['cases']:
            c = cmp('==', v, int(cv[2]) if cv[1] != 1 else int(int(cv[2]) != 0))
            if c is False: continue
            if c is True:
                self.goto(cur, cur.top, blk); out.append(cur); cur = None; break
            alts = self.fork(cur, c); cur = None
            for b, s in alts:
                if b: self.goto(s, s.top, blk); out.append(s)
                else: cur = s
            if cur is None: break
        if cur is not None:
            self.goto(cur, cur.top, ins['def']); out.append(cur)
        if len(out) == 1 and out[0] is st: return 'stay'
        return ('fork', out)

    def op_unreachable(self, st, fr, ins):
        raise Prune()

    def op_ret(self, st, fr, ins):
        v = self.operand(st, ins['ops'][0], fr.env) if ins['ops'] else None
        return self.do_return(st, v)

    def do_return(self, st, v):
        fr = st.frames.pop()
        # free allocas
        if not st.frames:
            st.extra['ret'] = v
            return 'done'
        up = st.frames[-1]
        if fr.ret is None:    # pure evaluation frame
            st.extra['ret'] = v
            return 'done'
        return self.finish_call(st, up, fr.ret, v)

    def finish_call(self, st, up, cins, v):
        if cins['ty'] != 'void': up.env[cins['id']] = v
        if cins['op'] == 'invoke': self.goto(st, up, cins['t'])
        else: up.ip += 1
        return ('returned',)

    def op_alloca(self, st, fr, ins):
        n = self.operand(st, ins['ops'][0], fr.env)
        nm = '%s:local' % fr.fn['short'].split('::')[-1]
        i = self.new_obj(st, nm, pscale(n, ins['size']) , 'stack')
        fr.env[ins['id']] = Ptr(i, 0)

    def op_load(self, st, fr, ins):
        p = self.operand(st, ins['ops'][0], fr.env)
        fr.env[ins['id']] = self.load(st, p, ins['ty'], ins)

    def op_store(self, st, fr, ins):
        v = self.operand(st, ins['ops'][0], fr.env); p = self.operand(st, ins['ops'][1], fr.env)
        self.store(st, p, v, ins['vty'], ins)

    def op_getelementptr(self, st, fr, ins):
        p = self.operand(st, ins['base'], fr.env)
        if not ins['ok']: raise Unsupported('gep')
        if not isinstance(p, Ptr): 
            if p is UNDEF or isinstance(p, Fn): fr.env[ins['id']] = UNDEF; return
            raise Unsupported('gep on %r' % (p,))
        off = padd(p.off, ins['off'])
        s = p.st
        for o, sc, w in ins['vars']:
            v = self.operand(st, o, fr.env)
            if isinstance(v, PInt): raise Unsupported('gep ptrint')
            if v is UNDEF: raise Unsupported('gep undef')
            off = padd(off, pscale(v, sc))
            if s is None or sc < s: s = sc if not isconst(v) or s is None else s
        fr.env[ins['id']] = Ptr(p.obj, off, s)

    def fits(self, p, w):
        lo, hi = interval(p)
        return lo >= -(1 << (w - 1)) and hi < (1 << (w - 1))

    def wrap(self, st, p, w):
        """value of p modulo 2^w in signed representation"""
        if isconst(p):
            p = int(p) & ((1 << w) - 1)
            return p - (1 << w) if p >= 1 << (w - 1) else p
        if self.fits(p, w): return p
        if w >= 64:
            return p
        c = b_and(cmp('>=', p, -(1 << (w - 1))), cmp('<', p, 1 << (w - 1)))
        if self.decide(st, c) is True: return p
        k = ('wrap', p.key(), w)
        if k in MEMO: return MEMO[k]
        q, r = idiv_floor(padd(p, 1 << (w - 1)), 1 << w)
        v = psub(r, 1 << (w - 1))
        MEMO[k] = v
        return v

    def unsigned(self, st, p, w):
        if isconst(p): return int(p) & ((1 << w) - 1)
        lo, hi = interval(p)
        if lo >= 0: return p
        c = cmp('>=', p, 0)
        d = self.decide(st, c)
        if d is True: return p
        if d is False: return padd(p, 1 << w)
        return ite_i(c, p, padd(p, 1 << w))

    def ibin(self, st, fr, ins):
        a = self.operand(st, ins['ops'][0], fr.env); b = self.operand(st, ins['ops'][1], fr.env)
        return a, b, int(ins['ty'][1:]) if isinstance(ins['ty'], str) else None

    def arith(self, st, fr, ins, f):
        a, b, w = self.ibin(st, fr, ins)
        if isinstance(a, PInt) or isinstance(b, PInt): return self.ptrarith(st, ins, a, b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            raise Unsupported('i1 arithmetic')
        r = f(a, b)
        if isconst(r): return self.wrap(st, r, w)
        if self.fits(r, w): return r
        if ins.get('nsw'):
            if self.opts.get('overflow') or st.extra.get('overflow'):
                self.oblige(st, b_and(cmp('>=', r, -(1 << (w - 1))), cmp('<', r, 1 << (w - 1))), 'no-signed-overflow', ins, kind='mem')
            else: self.assumptions.add('signed machine arithmetic treated as mathematical (no overflow)')
            return r
        if w == 64: 
            self.assumptions.add('64-bit size arithmetic treated as mathematical')
            return r
        return self.wrap(st, r, w)

    def ptrarith(self, st, ins, a, b):
        if any(isinstance(x, PInt) and not isinstance(x.p, Ptr) for x in (a, b)): raise Unsupported('arithmetic on an undefined pointer')
        if ins['op'] == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            if a.p.obj == b.p.obj: return psub(a.p.off, b.p.off)
        if ins['op'] == 'sub' and isinstance(a, PInt) and isconst(b) and b == 0: return a
        if ins['op'] == 'sub' and isconst(a) and a == 0 and b.p.obj == 0: return 0
        if ins['op'] == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and (a.p.obj == 0 or b.p.obj == 0):
            raise Unsupported('pointer difference with null')
        raise Unsupported('pointer arithmetic through integers')

    def op_add(self, st, fr, ins): fr.env[ins['id']] = self.arith(st, fr, ins, padd)
    def op_sub(self, st, fr, ins): fr.env[ins['id']] = self.arith(st, fr, ins, psub)
    def op_mul(self, st, fr, ins): fr.env[ins['id']] = self.arith(st, fr, ins, pmul)

    def op_shl(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        if not isconst(b): raise Unsupported('shl by variable')
        r = pscale(a, 1 << int(b))
        fr.env[ins['id']] = r if (ins.get('nsw') or ins.get('nuw') or w == 64) and not isconst(r) else self.wrap(st, r, w)

    def op_ashr(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        if not isconst(b): raise Unsupported('ashr by variable')
        fr.env[ins['id']] = idiv_floor(a, 1 << int(b))[0]

    def op_lshr(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        if not isconst(b): raise Unsupported('lshr by variable')
        if w == 64 and b == 32 and isinstance(a, Poly) and a.key() in PACK:
            fr.env[ins['id']] = self.unsigned(st, PACK[a.key()][1], 32); return
        fr.env[ins['id']] = self.wrap(st, idiv_floor(self.unsigned(st, a, w), 1 << int(b))[0], w)

    def divrem(self, st, a, b, ins):
        """C truncating division"""
        if isconst(a) and isconst(b):
            if b == 0: self.oblige(st, False, 'division-by-zero', ins, kind='mem'); raise Prune()
            q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
            return q, a - q * b
        nz = cmp('!=', b, 0)
        if nz is not True: self.oblige(st, nz, 'division-by-zero', ins, kind='mem')
        if isinstance(a, Poly):
            if isconst(b) and all(c % b == 0 for c in a.d.values()): return pscale(a, Fraction(1, b)), 0
            if isinstance(b, Poly):
                q = poly_exact_div(a, b)
                if q is not None: return q, 0
        sa = self.sign(st, a); sb = self.sign(st, b)
        if sa is None or sb is None:
            # case split through if-then-else
            ca = cmp('>=', a, 0) if sa is None else (sa >= 0)
            cb = cmp('>', b, 0) if sb is None else (sb > 0)
            aa = ite_i(ca, a, pscale(a, -1)); bb = ite_i(cb, b, pscale(b, -1))
            (l, h) = interval(a); m = max(abs(l), abs(h))
            self.abs_iv(aa, l, h); self.abs_iv(bb, *interval(b))
            q, r = idiv_floor(aa, bb)
            same = b_or(b_and(ca, cb), b_and(b_not(ca), b_not(cb)))
            return ite_i(same, q, pscale(q, -1)), ite_i(ca, r, pscale(r, -1))
        aa = a if sa >= 0 else pscale(a, -1); bb = b if sb > 0 else pscale(b, -1)
        q, r = idiv_floor(aa, bb)
        if (sa >= 0) != (sb > 0): q = pscale(q, -1)
        if sa < 0: r = pscale(r, -1)
        return q, r

    def abs_iv(self, p, l, h):
        if isconst(p) or len(p.d) != 1: return
        (m, c), = p.d.items()
        if len(m) == 1 and c == 1:
            a = ATOMS[m[0]]
            if a.meta and a.meta[0] == 'ite':
                a.lo = 0 if a.lo is None or a.lo < 0 else a.lo
                mx = max(abs(l), abs(h))
                if mx != INF: a.hi = mx if a.hi is None else min(a.hi, mx)
                p._iv = None; a.done = None

    def sign(self, st, a):
        lo, hi = interval(a)
        if lo > 0: return 1
        if lo >= 0: return 0.5
        if hi < 0: return -1
        d = self.decide(st, cmp('>=', a, 0))
        if d is True:
            return 1 if self.decide(st, cmp('>', a, 0)) is True else 0.5
        if d is False: return -1
        return None

    def op_sdiv(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        fr.env[ins['id']] = self.divrem(st, a, b, ins)[0]
    def op_srem(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        fr.env[ins['id']] = self.divrem(st, a, b, ins)[1]
    def op_udiv(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        fr.env[ins['id']] = self.wrap(st, self.divrem(st, self.unsigned(st, a, w), self.unsigned(st, b, w), ins)[0], w)
    def op_urem(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        fr.env[ins['id']] = self.wrap(st, self.divrem(st, self.unsigned(st, a, w), self.unsigned(st, b, w), ins)[1], w)

    def field(self, a, m, w):
        # bits of a below a run of ones m (None: m is not a run), as a multiple of the lowest one
        m &= (1 << w) - 1
        if m == 0: return 0
        k = (m & -m).bit_length() - 1; n = m.bit_length() - k
        if m != ((1 << n) - 1) << k: return None
        return pscale(idiv_floor(idiv_floor(a, 1 << k)[0] if k else a, 1 << n)[1], 1 << k)
    def op_and(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        if w == 1: fr.env[ins['id']] = b_and(a, b); return
        if isconst(a) and isconst(b): fr.env[ins['id']] = self.wrap(st, int(a) & int(b), w); return
        if isconst(a): a, b = b, a
        if isinstance(a, PInt): raise Unsupported('and on pointer')
        if isconst(b):
            m = int(b)
            if m == 0: fr.env[ins['id']] = 0; return
            if m == -1: fr.env[ins['id']] = a; return
            mm = m & ((1 << w) - 1)
            if (mm & (mm + 1)) == 0:
                lo, hi = interval(a)
                if lo >= 0 and hi <= mm: fr.env[ins['id']] = a; return
                fr.env[ins['id']] = idiv_floor(a, mm + 1)[1]; return
            if (-m) & ((-m) - 1) == 0:   # m = -2^k
                k = -m
                fr.env[ins['id']] = psub(a, idiv_floor(a, k)[1]); return
        if self.is01(a) and self.is01(b):
            fr.env[ins['id']] = bool_int(b_and(int_bool(a), int_bool(b))); return
        if isconst(b):
            f = self.field(a, int(b), w); g = None if f is not None else self.field(a, ~int(b), w)
            if f is not None: fr.env[ins['id']] = self.wrap(st, f, w); return
            if g is not None: fr.env[ins['id']] = self.wrap(st, psub(a, g), w); return
        raise Unsupported('bitwise and')
    def is01(self, p):
        lo, hi = interval(p); return lo >= 0 and hi <= 1
    def op_or(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        if w == 1: fr.env[ins['id']] = b_or(a, b); return
        if isconst(a) and isconst(b): fr.env[ins['id']] = self.wrap(st, int(a) | int(b), w); return
        if isconst(a) and a == 0: fr.env[ins['id']] = b; return
        if isconst(b) and b == 0: fr.env[ins['id']] = a; return
        if self.is01(a) and self.is01(b):
            fr.env[ins['id']] = bool_int(b_or(int_bool(a), int_bool(b))); return
        # words without common bits: high part a multiple of 2^k, low part below 2^k
        for x, y in ((a, b), (b, a)):
            for k in (32, 16, 8):
                cs = [x] if isconst(x) else list(x.d.values())
                lo, hi = interval(y)
                if not all(c == int(c) and int(c) % (1 << k) == 0 for c in cs): continue
                if lo >= 0 and hi < (1 << k) or self.decide(st, b_and(cmp('>=', y, 0), cmp('<', y, 1 << k))) is True:
                    r = padd(x, y)
                    if k == 32 and w == 64 and isinstance(r, Poly): PACK[r.key()] = (self.wrap(st, y, 32), self.wrap(st, pscale(x, Fraction(1, 1 << 32)), 32))
                    fr.env[ins['id']] = r; return
        if isconst(a): a, b = b, a
        if isconst(b) and not isinstance(a, PInt):
            f = self.field(a, int(b), w)
            if f is not None: fr.env[ins['id']] = self.wrap(st, padd(psub(a, f), int(b) & ((1 << w) - 1)), w); return
        raise Unsupported('bitwise or')
    def op_xor(self, st, fr, ins):
        a, b, w = self.ibin(st, fr, ins)
        if w == 1:
            if b is True: r = b_not(a)
            elif b is False: r = a
            elif a is True: r = b_not(b)
            elif a is False: r = b
            else: r = z3.Xor(a, b)
            fr.env[ins['id']] = r; return
        if isconst(a) and isconst(b): fr.env[ins['id']] = self.wrap(st, int(a) ^ int(b), w); return
        if isconst(b) and b == -1: fr.env[ins['id']] = psub(-1, a); return
        if self.is01(a) and isconst(b) and b == 1: fr.env[ins['id']] = psub(1, a); return
        raise Unsupported('bitwise xor')

    def op_icmp(self, st, fr, ins):
        a = self.operand(st, ins['ops'][0], fr.env); b = self.operand(st, ins['ops'][1], fr.env)
        r = self.icmp(st, ins['pred'], a, b, ins['oty'])
        fr.env[ins['id']] = r
        if isinstance(r, z3.BoolRef):
            if isinstance(a, PInt): a = a.p
            if isinstance(b, PInt): b = b.p
            if isinstance(a, Ptr) and isinstance(b, Ptr): d = psub(a.off, b.off)
            elif isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and not isinstance(a, bool) and not isinstance(b, bool): d = psub(a, b)
            else: return
            if isinstance(d, Poly): self.cmpinfo[r.get_id()] = d; T._KEEP.append(r)

    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, Undef) or isinstance(b, Undef): return UNDEF
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, int): a = NULL
            if isinstance(b, int): b = NULL
            if isinstance(a, Fn) or isinstance(b, Fn):
                e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                return e if pred == 'eq' else not e
            if a.obj == b.obj:
                o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[pred]
                return cmp(o, a.off, b.off)
            if pred == 'eq': return False
            if pred == 'ne': return True
            # ordering of distinct objects (overlap tests): unknown
            return new_bool('ptrcmp')
        if ty == 'i1' or isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if pred in ('eq', 'ne'):
                x = self.b_eq(a, b)
                return x if pred == 'eq' else b_not(x)
            a = bool_int(a); b = bool_int(b)
            if pred[0] == 's': a = pscale(a, -1); b = pscale(b, -1)
        w = int(ty[1:]) if ty.startswith('i') else 64
        if pred == 'eq': return cmp('==', a, b)
        if pred == 'ne': return cmp('!=', a, b)
        if pred[0] == 'u' and w > 1:
            a = self.unsigned(st, a, w); b = self.unsigned(st, b, w)
        return cmp({'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]], a, b)

    def b_eq(self, a, b):
        if isinstance(a, (int, Poly)) and not isinstance(a, bool): a = int_bool(a)
        if isinstance(b, (int, Poly)) and not isinstance(b, bool): b = int_bool(b)
        if a is True: return b
        if b is True: return a
        if a is False: return b_not(b)
        if b is False: return b_not(a)
        return a == b

    def op_zext(self, st, fr, ins):
        a = self.operand(st, ins['ops'][0], fr.env)
        if a is UNDEF: fr.env[ins['id']] = UNDEF; return
        if ins['from'] == 'i1': fr.env[ins['id']] = bool_int(a) if isinstance(a, (bool, z3.BoolRef)) else a; return
        fr.env[ins['id']] = self.unsigned(st, a, int(ins['from'][1:]))
    def op_sext(self, st, fr, ins):
        a = self.operand(st, ins['ops'][0], fr.env)
        if ins['from'] == 'i1': a = pscale(bool_int(a), -1)
        fr.env[ins['id']] = a
    def op_trunc(self, st, fr, ins):
        a = self.operand(st, ins['ops'][0], fr.env)
        if a is UNDEF: fr.env[ins['id']] = UNDEF; return
        if isinstance(a, PInt): raise Unsupported('trunc of pointer')
        w = int(ins['ty'][1:])
        if w == 1:
            if isconst(a): r = bool(int(a) & 1)
            elif self.is01(a): r = int_bool(a)
            else: r = cmp('==', idiv_floor(a, 2)[1], 1)
            fr.env[ins['id']] = r; return
        if w == 32 and isinstance(a, Poly) and a.key() in PACK: fr.env[ins['id']] = PACK[a.key()][0]; return
        fr.env[ins['id']] = self.wrap(st, a, w)
    def op_ptrtoint(self, st, fr, ins):
        p = self.operand(st, ins['ops'][0], fr.env)
        fr.env[ins['id']] = 0 if isinstance(p, Ptr) and p.obj == 0 and pkey(p.off) == 0 else PInt(p)
    def op_inttoptr(self, st, fr, ins):
        p = self.operand(st, ins['ops'][0], fr.env)
        if isinstance(p, PInt): fr.env[ins['id']] = p.p
        elif isconst(p) and p == 0: fr.env[ins['id']] = NULL
        else: raise Unsupported('inttoptr')
    def op_bitcast(self, st, fr, ins):
        v = self.operand(st, ins['ops'][0], fr.env)
        if ins['ty'] != ins['from'] and 'double' in (ins['ty'], ins['from']): raise Unsupported('bitcast double')
        fr.env[ins['id']] = v
    def op_freeze(self, st, fr, ins):
        v = self.operand(st, ins['ops'][0], fr.env)
        fr.env[ins['id']] = self.fresh_of(ins['ty']) if v is UNDEF else v

    def op_select(self, st, fr, ins):
        c = self.operand(st, ins['ops'][0], fr.env)
        a = self.operand(st, ins['ops'][1], fr.env); b = self.operand(st, ins['ops'][2], fr.env)
        if c is UNDEF: raise Unsupported('select on undef')
        if c is True: fr.env[ins['id']] = a; return
        if c is False: fr.env[ins['id']] = b; return
        if isinstance(a, (D, Ptr, Fn)) or isinstance(b, (D, Ptr, Fn)):
            if isinstance(a, D) and (self.opts.get('select_ite') or st.spec): 
                fr.env[ins['id']] = v_ite(c, a, b); return
            out = []
            for v, s in self.fork(st, c):
                s.top.env[ins['id']] = a if v else b
                s.top.ip += 1
                out.append(s)
            return ('fork', out) if len(out) > 1 or out[0] is not st else 'stay'
        fr.env[ins['id']] = v_ite(c, a, b)

    # floating point -----------------------------------------------------
    def dop(self, st, fr, ins, n=2):
        out = []
        for o in ins['ops'][:n]:
            v = self.operand(st, o, fr.env)
            if v is UNDEF: v = self.fresh_of('double')
            out.append(v)
        return out

    def fadd(self, a, b):
        if a.fin() and b.fin(): return D(padd(a.v, b.v))
        nan = b_or(a.nan, b.nan, b_and(a.pi, b.ni), b_and(a.ni, b.pi))
        pi = b_and(b_or(a.pi, b.pi), b_not(nan)); ni = b_and(b_or(a.ni, b.ni), b_not(nan))
        return D(padd(a.v, b.v), nan, pi, ni)
    def fneg(self, a): return D(pscale(a.v, -1), a.nan, a.ni, a.pi)
    def fmul(self, a, b):
        if a.fin() and b.fin(): return D(pmul(a.v, b.v))
        if a.pi is False and a.ni is False and b.pi is False and b.ni is False:
            return D(pmul(a.v, b.v), b_or(a.nan, b.nan))
        ai = b_or(a.pi, a.ni); bi = b_or(b.pi, b.ni)
        az = b_and(b_not(ai), cmp('==', a.v, 0)); bz = b_and(b_not(bi), cmp('==', b.v, 0))
        nan = b_or(a.nan, b.nan, b_and(ai, bz), b_and(bi, az))
        an = b_or(a.ni, b_and(b_not(ai), cmp('<', a.v, 0))); bn = b_or(b.ni, b_and(b_not(bi), cmp('<', b.v, 0)))
        inf = b_and(b_or(ai, bi), b_not(nan))
        neg = b_ite(an, b_not(bn), bn)
        return D(pmul(a.v, b.v), nan, b_and(inf, b_not(neg)), b_and(inf, neg))
    def quot(self, a, b):
        """real quotient; facts: b != 0 -> q*b == a"""
        if isconst(b) and b != 0: return pmul(a, Fraction(1) / Fraction(b)) if isinstance(a, Poly) else _num(Fraction(a) / Fraction(b))
        if isconst(a) and a == 0: return 0
        if isconst(b): return new_real('div0')
        # exact polynomial division
        if isinstance(a, Poly):
            q = poly_exact_div(a, b)
            if q is not None: return q
        # split off denominators already in use (same zero set, so same guards)
        if isinstance(b, Poly) and ('inv', b.key()) not in MEMO:
            for d, inv in MEMO.get('denoms', []):
                q = poly_exact_div(b, d)
                if q is not None: return self.quot(pmul(a, inv), q)
        k = ('inv', b.key())
        inv = MEMO.get(k)
        if inv is None:
            inv = new_real('inv')
            ia = ATOMS[list(inv.d)[0][0]]
            zb_ = zreal(b)
            ia.facts.append(z3.Implies(zb_ != 0, ia.z * zb_ == 1))
            ia.facts.append(z3.And(z3.Implies(zb_ > 0, ia.z > 0), z3.Implies(zb_ < 0, ia.z < 0)))
            if len(b.d) == 1:
                (m, c), = b.d.items()
                if len(m) == 1 and c == 1: ia.meta = ('inv', m[0])
            if ia.meta is None: ia.meta = ('invp', b)
            MEMO[k] = inv
            MEMO.setdefault('denoms', []).append((b, inv))
        return pmul(a, inv)
    def fdiv(self, st, a, b):
        bz = cmp('==', b.v, 0)
        if b.fin() and not isinstance(bz, bool):
            d = self.decide(st, bz)
            if d is not None: bz = d
            elif a.fin() and not st.spec and not isconst(b.v): raise NeedFork(bz)
        if a.fin() and b.fin() and bz is False: return D(self.quot(a.v, b.v))
        if b.pi is False and b.ni is False and a.pi is False and a.ni is False:
            nan = b_or(a.nan, b.nan, b_and(bz, cmp('==', a.v, 0)))
            pi = b_and(b_not(b.nan), b_not(a.nan), bz, cmp('>', a.v, 0)); ni = b_and(b_not(b.nan), b_not(a.nan), bz, cmp('<', a.v, 0))
            if bz is not False and (pi is not False or ni is not False):
                # the sign of a zero divisor is not tracked
                if isconst(b.v): pass
                else:
                    s = new_bool('zsign'); pi, ni = b_ite(s, pi, ni), b_ite(s, ni, pi)
            v = 0 if bz is True else self.quot(a.v, b.v)
            return D(v, nan, pi, ni)
        ai = b_or(a.pi, a.ni); bi = b_or(b.pi, b.ni)
        bz = b_and(b_not(bi), bz)
        nan = b_or(a.nan, b.nan, b_and(ai, bi), b_and(bz, b_not(ai), cmp('==', a.v, 0)))
        inf = b_and(b_not(nan), b_or(ai, b_and(bz, b_not(ai))))
        an = b_or(a.ni, b_and(b_not(ai), cmp('<', a.v, 0))); bn = b_or(b.ni, b_and(b_not(bi), cmp('<', b.v, 0)))
        neg = b_ite(an, b_not(bn), bn)
        v = ite_r(zb(bi) if bi is not False else False, 0, self.quot(a.v, b.v) if not (isconst(b.v) and b.v == 0) else 0)
        return D(v, nan, b_and(inf, b_not(neg)), b_and(inf, neg))
    def op_fadd(self, st, fr, ins): a, b = self.dop(st, fr, ins); fr.env[ins['id']] = self.fadd(a, b)
    def op_fsub(self, st, fr, ins): a, b = self.dop(st, fr, ins); fr.env[ins['id']] = self.fadd(a, self.fneg(b))
    def op_fmul(self, st, fr, ins): a, b = self.dop(st, fr, ins); fr.env[ins['id']] = self.fmul(a, b)
    def op_fdiv(self, st, fr, ins): a, b = self.dop(st, fr, ins); fr.env[ins['id']] = self.fdiv(st, a, b)
    def op_fneg(self, st, fr, ins): a, = self.dop(st, fr, ins, 1); fr.env[ins['id']] = self.fneg(a)
    def op_sitofp(self, st, fr, ins):
        a = self.operand(st, ins['ops'][0], fr.env); fr.env[ins['id']] = D(a if not isinstance(a, (bool, z3.BoolRef)) else bool_int(a))
    def op_uitofp(self, st, fr, ins):
        a = self.operand(st, ins['ops'][0], fr.env)
        if isinstance(a, (bool, z3.BoolRef)): a = bool_int(a)
        w = ins['from']; fr.env[ins['id']] = D(self.unsigned(st, a, int(w[1:])) if w != 'i1' else a)
    def op_fpext(self, st, fr, ins): fr.env[ins['id']] = self.operand(st, ins['ops'][0], fr.env)
    def op_fptrunc(self, st, fr, ins): fr.env[ins['id']] = self.operand(st, ins['ops'][0], fr.env)
    def floor_of(self, v):
        """integer floor of a real polynomial"""
        if isconst(v):
            import math; return math.floor(v)
        if all_int(v): return v
        k = ('floor', v.key())
        if k in MEMO: return MEMO[k]
        lo, hi = interval(v)
        import math
        n = new_int('floor', None if lo == -INF else math.floor(lo), None if hi == INF else math.floor(hi))
        a = ATOMS[list(n.d)[0][0]]
        zv = zreal(v)
        a.facts.append(z3.And(z3.ToReal(a.z) <= zv, zv < z3.ToReal(a.z) + 1))
        MEMO[k] = n
        return n
    def op_fptosi(self, st, fr, ins):
        a, = self.dop(st, fr, ins, 1)
        v = a.v
        if isconst(v): fr.env[ins['id']] = int(v); return
        s = self.sign(st, v)
        if s is not None:
            r = self.floor_of(v) if s >= 0 else pscale(self.floor_of(pscale(v, -1)), -1)
        else:
            r = ite_i(cmp('>=', v, 0), self.floor_of(v), pscale(self.floor_of(pscale(v, -1)), -1))
        fr.env[ins['id']] = r
    op_fptoui = op_fptosi
    def flt(self, a, b):
        if a.fin() and b.fin(): return cmp('<', a.v, b.v)
        n = b_not(b_or(a.nan, b.nan))
        bf = b_and(b_not(b_or(a.pi, a.ni)), b_not(b_or(b.pi, b.ni)))
        return b_and(n, b_or(b_and(a.ni, b_not(b.ni)), b_and(b.pi, b_not(a.pi)), b_and(bf, cmp('<', a.v, b.v))))
    def feq(self, a, b):
        if a.fin() and b.fin(): return cmp('==', a.v, b.v)
        n = b_not(b_or(a.nan, b.nan))
        bf = b_and(b_not(b_or(a.pi, a.ni)), b_not(b_or(b.pi, b.ni)))
        return b_and(n, b_or(b_and(a.pi, b.pi), b_and(a.ni, b.ni), b_and(bf, cmp('==', a.v, b.v))))
    def fcmp(self, pred, a, b):
        uno = b_or(a.nan, b.nan)
        if pred == 'ord': return b_not(uno)
        if pred == 'uno': return uno
        if pred == 'true': return True
        if pred == 'false': return False
        o = pred[1:]
        if o == 'eq': r = self.feq(a, b)
        elif o == 'ne': r = b_and(b_not(uno), b_not(self.feq(a, b)))
        elif o == 'lt': r = self.flt(a, b)
        elif o == 'gt': r = self.flt(b, a)
        elif o == 'le': r = b_and(b_not(uno), b_not(self.flt(b, a))) if not (a.fin() and b.fin()) else cmp('<=', a.v, b.v)
        elif o == 'ge': r = b_and(b_not(uno), b_not(self.flt(a, b))) if not (a.fin() and b.fin()) else cmp('>=', a.v, b.v)
        return r if pred[0] == 'o' else b_or(uno, r)
    def op_fcmp(self, st, fr, ins):
        a, b = self.dop(st, fr, ins)
        fr.env[ins['id']] = self.fcmp(ins['pred'], a, b)

    # aggregates -----------------------------------------------------------
    def op_extractvalue(self, st, fr, ins):
        v = self.operand(st, ins['ops'][0], fr.env)
        for i in ins['idx']: v = v.e[i]
        fr.env[ins['id']] = v
    def op_insertvalue(self, st, fr, ins):
        v = self.operand(st, ins['ops'][0], fr.env); x = self.operand(st, ins['ops'][1], fr.env)
        if len(ins['idx']) != 1: raise Unsupported('nested insertvalue')
        e = list(v.e) if isinstance(v, Agg) else [UNDEF] * (len(ins['ty']) - 1)
        e[ins['idx'][0]] = x
        fr.env[ins['id']] = Agg(e)
    def op_phi(self, st, fr, ins): raise Unsupported('stray phi')

    # calls ------------------------------------------------------------------
    def op_call(self, st, fr, ins): return self.call(st, fr, ins)
    def op_invoke(self, st, fr, ins): return self.call(st, fr, ins)

    def call(self, st, fr, ins):
        cal = self.operand(st, ins['callee'], fr.env)
        if not isinstance(cal, Fn): raise Unsupported('indirect call through %r' % (cal,))
        name = cal.name
        args = [self.operand(st, a, fr.env) for a in ins['args']]
        f = self.mod.functions.get(name)
        if f is None: raise Unsupported('unknown function ' + name)
        rep = self.mod.functions.get('replace__' + name)
        if rep is not None and 'blocks' in rep:
            self.replaced.add(f['dem'])
            self.push_call(st, rep, args, ins)
            return 'stay'
        m = models.find(f)
        if m is not None:
            r = m(self, st, fr, ins, f, args)
            return self.after_model(st, fr, ins, r)
        if 'blocks' not in f:
            raise Unsupported('external function ' + f['dem'])
        if name.startswith('spec_') and not self.opts.get('nospec'):
            r = models.spec_call(self, st, f, args)
            return self.after_model(st, fr, ins, ('val', r))
        self.push_call(st, f, args, ins)
        return 'stay'

    def after_model(self, st, fr, ins, r):
        k = r[0]
        if k == 'val':
            if ins['ty'] != 'void': fr.env[ins['id']] = r[1]
            if ins['op'] == 'invoke': return self.goto(st, fr, ins['t'])
            return None
        if k == 'throw':
            return self.unwind(st, r[1])
        if k == 'prune': raise Prune()
        if k == 'forkval':      # [(state, value or ('throw',x))]
            out = []
            for s, v in r[1]:
                f2 = s.top
                if ins['ty'] != 'void': f2.env[ins['id']] = v
                if ins['op'] == 'invoke': self.goto(s, f2, ins['t'])
                else: f2.ip += 1
                out.append(s)
            return ('fork', out)
        if k == 'pushed': return 'stay'
        raise Unsupported('model result')

    def push_call(self, st, f, args, ins):
        if len(st.frames) > 200: raise Unsupported('recursion too deep')
        if not st.spec:
            self.funcs_used[f['dem']] = self.funcs_used.get(f['dem'], 0) + 1
        nf = Frame(f)
        bv = ins.get('byval') if ins else None
        for i, (aid, v) in enumerate(zip(f['args'], args)):
            if bv and i < len(bv) and bv[i]:
                o = self.new_obj(st, 'byval', bv[i], 'stack')
                self.memcpy(st, Ptr(o, 0), v, bv[i], ins); v = Ptr(o, 0)
            nf.env[aid] = v
        nf.ret = ins
        st.frames.append(nf)
        nf.blk = 0; nf.ip = 0

    # exceptions ---------------------------------------------------------
    def unwind(self, st, exc):
        """exc = (object ptr, typeinfo name)"""
        st.exc = exc
        first = True
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.blk][fr.ip]
            if ins['op'] == 'invoke':
                fr.prev = fr.blk
                st.pending = ('goto', ins['u'])
                # a boundary deeper than this frame has been left
                return ('returned',) if not first else 'stay'
            st.frames.pop(); first = False
            if fr.ret is None:
                st.extra['ret'] = None; st.extra['threw'] = exc
                return 'done'
        # escaped the contract
        self.quiet or self.obls.append(self._uncaught(st, exc))
        return 'done'

    def _uncaught(self, st, exc):
        o = Obligation('no-unexpected-exception', '', 'exc')
        o.status = 'failed'; o.havoced = st.havoced
        r, m = query(list(st.pc), self.qtimeout, level=2)
        if r == 'unsat': o.status = 'proved'
        elif m is not None:
            o.tape = self.model_tape(st, z3.BoolVal(True), m)
        if os.environ.get('LDTVC_DEBUG'): print('uncaught', exc, o.status, o.tape)
        return o

    def op_landingpad(self, st, fr, ins):
        obj, ti = st.exc
        sel = 0
        for kind, cl in ins['clauses']:
            if kind == 'filter': continue
            if cl[0] == 'null': sel = 1; break
            if self.exc_match(ti, cl[1]): sel = self.typeid(cl[1]); break
        if sel == 0 and not ins['cleanup'] and ins['clauses']:
            # no clause matches: continue unwinding from this frame
            st.frames.pop()
            if fr.ret is None: st.extra['threw'] = st.exc; return 'done'
            up = st.frames[-1] if st.frames else None
            if up is None: self.quiet or self.obls.append(self._uncaught(st, st.exc)); return 'done'
            r = self.unwind(st, st.exc)
            return r if r != 'stay' else ('returned',)
        fr.env[ins['id']] = Agg([Ptr(obj.obj, obj.off), sel])

    def typeid(self, name):
        d = self.opts.setdefault('_typeids', {})
        return d.setdefault(name, len(d) + 2)

    BASES = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception'}
    def bases(self, ti):
        out = []
        while ti:
            out.append(ti)
            nx = None
            g = self.mod.globals.get(ti)
            if g and 'init' in g:
                for off, sz, ty, op in g['init']:
                    if off == 16 and op[0] == 'g': nx = op[1]
            if nx is None: nx = self.BASES.get(ti)
            ti = nx
        return out
    def exc_match(self, ti, want):
        return want in self.bases(ti)

    def op_resume(self, st, fr, ins):
        st.frames.pop()
        if fr.ret is None: st.extra['threw'] = st.exc; return 'done'
        if not st.frames:
            self.quiet or self.obls.append(self._uncaught(st, st.exc)); return 'done'
        r = self.unwind(st, st.exc)
        return r if r != 'stay' else ('returned',)

    # evaluate a pure function to a list of (pc-delta, value, state)
    def eval_pure(self, st, f, args, spec=True):
        s = st.copy()
        base = len(s.pc)
        keep_frames = s.frames
        s.frames = []
        s.spec = (st.spec or 0) + 1
        s.pending = None
        s.bounded = False
        fr = Frame(f)
        for aid, v in zip(f['args'], args): fr.env[aid] = v
        fr.ret = None
        s.frames.append(fr)
        # a sentinel frame so that do_return sees a caller
        results = []
        work = [s]
        saved = self.decided_log; self.decided_log = None
        try:
            while work:
                x = work.pop()
                try: ev = self.run(x, None)
                except Prune: continue
                if ev[0] == 'fork': work.extend(ev[1])
                elif ev[0] == 'done':
                    if 'threw' in x.extra and x.extra['threw'] and x.extra.get('ret') is None: continue
                    results.append((x.pc[base:], x.extra.get('ret'), x))
        finally:
            self.decided_log = saved
        return results

def _num(x):
    return int(x) if isinstance(x, Fraction) and x.denominator == 1 else x

def poly_exact_div(a, b):
    """a/b when b divides a exactly as polynomials (simple cases)"""
    if isconst(b): return pscale(a, Fraction(1) / Fraction(b)) if b != 0 else None
    if pkey(a) == pkey(b): return 1
    if len(b.d) == 1:
        (mb, cb), = b.d.items()
        out = {}
        for m, c in a.d.items():
            l = list(m)
            for i in mb:
                if i in l: l.remove(i)
                else: return None
            q = Fraction(c) / cb
            out[tuple(l)] = _num(q)
        # integer use: quotient coefficients must be integral for ints
        r = T._mk(out)
        if all(ATOMS[i].sort == 'i' for m in a.d for i in m) and any(isinstance(c, Fraction) for c in out.values()): return None
        return r
    # multivariate long division by leading term
    rem = dict(a.d); q = {}
    def lead(d):
        return max(d, key=lambda m: (len(m), m))
    lb = lead(b.d); cb = b.d[lb]
    n = 0
    while rem:
        n += 1
        if n > 60: return None
        lm = lead(rem); c = rem[lm]
        l = list(lm)
        for i in lb:
            if i in l: l.remove(i)
            else: return None
        t = tuple(l); k = _num(Fraction(c) / cb)
        q[t] = q.get(t, 0) + k
        for m, cc in b.d.items():
            mm = tuple(sorted(m + t)); rem[mm] = rem.get(mm, 0) - cc * k
            if rem[mm] == 0: del rem[mm]
    if all(ATOMS[i].sort == 'i' for m in a.d for i in m) and any(isinstance(c, Fraction) for c in q.values()): return None
    return T._mk(q)
