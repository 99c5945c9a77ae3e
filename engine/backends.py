"""Fallback back ends for obligations z3's default solver leaves open."""
import z3, time
from terms import *
import terms as T

def build(assertions):
    asr = [zb(a) for a in assertions if a is not True]
    seen, facts = closure(asr)
    lem = product_lemmas(seen)
    if lem:
        s2, f2 = closure(lem); seen = seen | s2
        facts = facts + f2
    return asr, facts, lem, mono_defs(seen)

def abstract_reals(exprs):
    """replace uninterpreted applications by constants so that nlsat applies"""
    sub = []; seen = set()
    def walk(e):
        k = e.get_id()
        if k in seen: return
        seen.add(k)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
            sub.append((e, z3.FreshConst(e.sort(), 'abs')))
        for c in e.children(): walk(c)
    for e in exprs: walk(e)
    sub.sort(key=lambda p: -len(str(p[0])))
    return [z3.substitute(e, *sub) for e in exprs] if sub else exprs

def try_all(assertions, timeout):
    t0 = time.time()
    try:
        asr, facts, lem, defs = build(assertions)
        allx = asr + facts + lem + defs
        # 1. pure nlsat with applications abstracted (sound for unsat)
        ab = abstract_reals(allx)
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                t = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', tac) if tac == 'qfnra-nlsat' else z3.Tactic('smt')
                s = t.solver(); s.set('timeout', timeout)
                s.add(*ab)
                if s.check() == z3.unsat: return ('unsat', 'z3-' + tac)
            except z3.Z3Exception: pass
        r = cvc5_check(allx, timeout)
        if r == 'unsat': return ('unsat', 'cvc5')
    except T.Unsupported:
        pass
    finally:
        T.STATS['time'] += time.time() - t0
    return None

def cvc5_check(exprs, timeout):
    import subprocess, tempfile, os, shutil
    if not shutil.which('cvc5'): return None
    s = z3.Solver(); s.add(*exprs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    T.STATS['cvc5'] += 1
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        out = subprocess.run(['cvc5', '--tlimit=%d' % timeout, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5).stdout
        return out.strip().split('\n')[0] if out.strip() else None
    except Exception: return None
    finally: os.unlink(f.name)
