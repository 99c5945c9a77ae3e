#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--only HARNESS] [--baseline]

Decides property ID: compiles /verif/contracts/ID*.cpp together with the /repo
sources they include, generates and discharges every proof obligation of every
contract, and runs the same contracts natively on sampled inputs and on the
verifier's counterexamples.
"""
import sys, os, json, glob, subprocess, tempfile, shutil, time, re, argparse, hashlib, signal
import multiprocessing as mp
try: import z3
except ImportError:
    if os.environ.get('LDTVC_REEXEC'): raise
    os.environ['LDTVC_REEXEC'] = '1'; os.execvp('python3-vt', ['python3-vt'] + sys.argv)
VERIF = os.path.dirname(os.path.abspath(__file__))
ENG = os.path.join(VERIF, 'engine')
sys.path.insert(0, ENG)
REPO = os.environ.get('LDTVC_REPO', '/repo')
INC = ['-I' + ENG, '-I' + REPO, '-I' + VERIF + '/contracts'] + ['-I' + os.path.join(REPO, 'include', d) for d in sorted({''} | {os.path.relpath(p, os.path.join(REPO, 'include')) for p, _, _ in os.walk(os.path.join(REPO, 'include'))})]
PASSES = 'globaldce,function(sroa,early-cse,simplifycfg,instsimplify),cgscc(inline,function(sroa,early-cse,simplifycfg,instsimplify)),globaldce,function(sroa,early-cse,simplifycfg,instsimplify,adce,loop-simplify)'

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def compile_ir(src, work):
    b = os.path.join(work, os.path.basename(src)[:-4])
    steps = [
        ['clang++', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-gline-tables-only', '-w', '-emit-llvm', '-c'] + INC + [src, '-o', b + '.0.bc'],
        [VERIF + '/build/irdump', '--prep', b + '.0.bc', b + '.1.bc', ENG + '/noinline.txt'],
        ['opt', '-passes=' + PASSES, b + '.1.bc', '-o', b + '.2.bc']]
    for c in steps:
        r = sh(c)
        if r.returncode: return None, ' '.join(c[:1]) + ': ' + r.stderr[-3000:]
    with open(b + '.json', 'w') as f:
        r = subprocess.run([VERIF + '/build/irdump', b + '.2.bc'], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode: return None, r.stderr[-2000:]
    return b + '.json', None

def compile_native(src, work):
    out = os.path.join(work, os.path.basename(src)[:-4] + '.native')
    objs = os.path.join(work, os.path.basename(src)[:-4] + '.no.o')
    r = sh(['clang++', '-std=c++17', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-access-control', '-w', '-DVC_NATIVE', '-c'] + INC + [src, '-o', objs])
    if r.returncode: return None, r.stderr[-3000:]
    no = os.path.join(work, 'native_driver.o')
    if not os.path.exists(no):
        t = no + str(os.getpid())
        r = sh(['clang++', '-std=c++17', '-O1', '-fsanitize=address', '-w', '-DVC_NATIVE', '-c', '-I' + ENG, ENG + '/native.cpp', '-o', t])
        if r.returncode: return None, r.stderr[-3000:]
        os.rename(t, no)
    # functions no contract reaches may stay undefined; calling one would crash the run
    r = sh(['clang++', '-fsanitize=address', objs, no, '-o', out, '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-fuse-ld=bfd', '-llapack', '-lblas', '-lm'])
    if r.returncode:
        r = sh(['clang++', '-fsanitize=address', objs, no, '-o', out, '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-lm'])
    if r.returncode: return None, r.stderr[-3000:]
    return out, None

def nm_harnesses(src):
    txt = open(src).read()
    return txt

# ------------------------------------------------------------------ proving
def prove_task(jpath, name, budget, bmc, conn):
    try:
        os.setpgrp()
        import terms, ldtvc
        t0 = time.time()
        terms.reset()
        E = ldtvc.Engine(ldtvc.Module(jpath), {'bmc': bmc} if bmc else None)
        E.run_harness('h_' + name, budget)
        obls = [dict(name=o.name, where=o.where, kind=o.kind, status=o.status, tape=o.tape, how=o.how, havoced=o.havoced) for o in E.obls]
        conn.send(dict(harness=name, obls=obls, unknown=E.unknown_paths[:20], nunknown=len(E.unknown_paths), covers=E.covers, wall=time.time() - t0, funcs=sorted(E.funcs_used), assumptions=sorted(E.assumptions), trusted=sorted(E.trusted), replaced=sorted(E.replaced), bounded=E.boundedloops > 0 or bool(bmc), paths=E.npaths, stats=dict(terms.STATS), loops=len(E.loopinfo), cands=sorted(getattr(E, 'used_cands', []))))
    except BaseException as e:
        import traceback
        if os.environ.get('LDTVC_DEBUG'): traceback.print_exc()
        try: conn.send(dict(harness=name, error='%s: %s' % (type(e).__name__, str(e)[:300])))
        except Exception: pass
    finally:
        conn.close()

def search_task(binp, name, seed, secs, out, conn):
    try:
        r = subprocess.run([binp, 'search', name, str(seed), str(secs), out], capture_output=True, text=True, timeout=secs + 90, errors='replace')
        conn.send(dict(harness=name, rc=r.returncode, out=r.stdout[-600:], err=r.stderr[-3000:]))
    except BaseException as e:
        conn.send(dict(harness=name, rc=-1, out='', err=str(e)[:300]))
    conn.close()

def pool_run(tasks, width=8):
    """tasks: list of (key, fn, args, hardlimit); returns {key: result or None}"""
    ctx = mp.get_context('fork')
    todo = list(tasks); running = {}; res = {}
    while todo or running:
        while todo and len(running) < width:
            key, fn, args, lim = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=fn, args=args + (b,)); p.start(); b.close()
            running[key] = (p, a, time.time() + lim)
        time.sleep(0.02)
        for k in list(running):
            p, a, dl = running[k]
            got = False
            if a.poll():
                try: res[k] = a.recv(); got = True
                except EOFError: res[k] = None; got = True
            if not got and not p.is_alive():
                if a.poll():
                    try: res[k] = a.recv()
                    except EOFError: res[k] = None
                else: res[k] = None
                got = True
            if not got and time.time() > dl:
                res[k] = dict(harness=k[1], error='time limit'); got = True
            if got:
                if p.is_alive():
                    p.join(0.5)
                    if p.is_alive():
                        try: os.killpg(p.pid, signal.SIGKILL)
                        except Exception: pass
                        p.kill(); p.join()
                a.close(); del running[k]
    return res

def replay(binp, name, tapefile):
    try:
        r = subprocess.run([binp, 'replay', name, tapefile], capture_output=True, text=True, timeout=60, errors='replace')
        return r.returncode, (r.stdout + '\n' + r.stderr[-2500:])
    except subprocess.TimeoutExpired:
        return 3, 'FAILED termination'

def fmt(v):
    return repr(float(v)) if isinstance(v, float) else str(v)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--baseline', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--budget', type=float); ap.add_argument('--nosearch', action='store_true'); ap.add_argument('--replay')
    A = ap.parse_args()
    pid = A.id; seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    thorough = A.tier == 'thorough'
    cfg = json.load(open(os.path.join(VERIF, 'contracts', 'config.json'))).get(pid, {})
    budget = A.budget or (cfg.get('budget', 100) * (6 if thorough else 1))
    secs = cfg.get('search', 4) * (15 if thorough else 1)
    srcs = sorted(glob.glob(os.path.join(VERIF, 'contracts', pid + '_*.cpp')))
    if not os.path.exists(VERIF + '/build/irdump'): sh([ENG + '/setup.sh'])
    work = tempfile.mkdtemp(prefix='ldtvc-%s-' % pid)
    try: rc = run(A, pid, seed, t0, budget, secs, srcs, work, cfg)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(A, pid, seed, t0, budget, secs, srcs, work, cfg):
    try: base = json.load(open(os.path.join(VERIF, 'baseline', pid + '.json')))
    except Exception: base = {}
    kf = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == pid]
    # compile everything in parallel
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        irf = {s: ex.submit(compile_ir, s, work) for s in srcs}
        ntf = {}
        # build the native driver once
        if srcs:
            ntf[srcs[0]] = ex.submit(compile_native, srcs[0], work)
        for s in srcs[1:]: ntf[s] = ex.submit(compile_native, s, work)
        ir = {s: f.result() for s, f in irf.items()}; nat = {s: f.result() for s, f in ntf.items()}
    problems = []
    for s in srcs:
        if ir[s][1]: problems.append('verification build of %s failed: %s' % (os.path.basename(s), ir[s][1]))
        if nat[s][1]: problems.append('native build of %s failed: %s' % (os.path.basename(s), nat[s][1]))
    for p in problems: print('note:', p[:1500])
    tasks = []; where = {}
    rdir = os.path.join(VERIF, 'replays', pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    for s in srcs:
        names = []
        if ir[s][0]:
            d = json.load(open(ir[s][0]))
            names = [n[2:] for n in d['functions'] if n.startswith('h_') and 'blocks' in d['functions'][n]]
        if nat[s][0]: names += [n for n in sh([nat[s][0], 'list']).stdout.split() if n not in names]
        for n in names:
            if A.only and not re.fullmatch(A.only, n): continue
            where[n] = s
    heavy = cfg.get('heavy', [])
    order = sorted(where, key=lambda n: (n not in heavy, n))
    for n in order:
        s = where[n]
        if ir[s][0] and not n.startswith(('nat_', 'kf_')): tasks.append((('p', n), prove_task, (ir[s][0], n, budget, None), budget + 60))
    for n in order:
        s = where[n]
        if nat[s][0] and not n.startswith('kf_') and not A.nosearch: tasks.append((('s', n), search_task, (nat[s][0], n, seed * 7919 + int(hashlib.md5(n.encode()).hexdigest()[:6], 16), secs * (3 if n.startswith('nat_') else 1), os.path.join(rdir, n + '.tape')), secs * 3 + 120))
    res = pool_run(tasks)
    violations = []; undischarged = []; bounded = []; newbase = {}
    tot = dis = btot = bdis = paths = 0; how = {}; funcs = set(); assumptions = set(); trusted = set(); replaced = set(); per = {}; iters = 0
    solver = 0.0
    # native failures first
    failedh = set()
    for n in order:
        r = res.get(('s', n))
        if r and r['rc'] == 3:
            tp = os.path.join(rdir, n + '.tape')
            if os.path.exists(tp):
                rc, out = replay(nat[where[n]][0], n, tp)
                if rc == 3:
                    open(tp, 'a').write(''.join('# ' + l + '\n' for l in (out + r['err']).splitlines()[:60]))
                    m = re.search(r'FAILED (.*)', out)
                    violations.append((n, tp, '', m.group(1) if m else ''))
                    failedh.add(n)
        if r:
            m = re.search(r'iterations (\d+)', r['out'])
            if m: iters += int(m.group(1))
            if r['rc'] not in (0, 3): problems.append('native run of %s: rc %s %s' % (n, r['rc'], r['err'][-300:]))
    second = []
    for n in order:
        r = res.get(('p', n))
        if n.startswith('nat_'): bounded.append(n); continue
        if n.startswith('kf_'): continue
        if r is None or 'error' in r:
            undischarged.append('%s: %s' % (n, (r or {}).get('error', 'verifier process died')))
            continue
        funcs |= set(r['funcs']); assumptions |= set(r['assumptions']); trusted |= set(r['trusted']); replaced |= set(r['replaced'])
        solver += r['stats'].get('time', 0); paths += r['paths']
        byname = {}
        for o in r['obls']:
            key = o['name'] if o['kind'] == 'post' else o['kind'] + ':' + re.sub(r'\(.*', '', o['name'])
            byname.setdefault(key, []).append(o)
            if r['bounded']:
                btot += 1; bdis += o['status'] == 'proved'; continue
            tot += 1
            if o['status'] == 'proved': dis += 1; how[o['how'] or 'z3'] = how.get(o['how'] or 'z3', 0) + 1
        per[n] = {k: '%d/%d' % (sum(o['status'] == 'proved' for o in l), len(l)) for k, l in byname.items()}
        complete = not r['nunknown']
        newbase[n] = {'complete': complete, 'proved': sorted(k for k, l in byname.items() if all(o['status'] == 'proved' for o in l))}
        if r['bounded']: bounded.append(n)
        for u in r['unknown'][:3]: undischarged.append('%s: path not covered: %s' % (n, u))
        for c, okc in r['covers'].items():
            if not okc: undischarged.append('%s: cover %s not reachable' % (n, c))
        if complete and not r['obls']: undischarged.append('%s: no obligation generated' % n)
        bad = [(k, o) for k, l in byname.items() for o in l if o['status'] != 'proved']
        for k, o in bad:
            if o['status'] != 'failed': undischarged.append('%s: %s @%s: %s' % (n, o['name'], o['where'], o['status']))
        bad = [(k, o) for k, o in bad if o['status'] == 'failed']
        if not bad or n in failedh: 
            for k, o in bad: undischarged.append('%s: %s @%s: failed' % (n, o['name'], o['where']))
            continue
        ok = False
        for i, (k, o) in enumerate(bad[:12]):
            if o['tape'] is None or not nat[where[n]][0]: continue
            tp = os.path.join(rdir, '%s.cex%d.tape' % (n, i))
            with open(tp, 'w') as f:
                f.write('# harness %s\n# failed obligation: %s @%s (verifier counterexample)\n' % (n, o['name'], o['where']))
                for v in o['tape']: f.write(fmt(v) + '\n')
            rc, out = replay(nat[where[n]][0], n, tp)
            open(tp, 'a').write(''.join('# ' + l + '\n' for l in out.splitlines()[:40]))
            if rc == 3:
                violations.append((n, tp, '', o['name'])); ok = True; failedh.add(n); break
            os.unlink(tp)
        if not ok: second.append((n, bad))
    # counterexample search by bounded unrolling of the same obligations, and more sampling
    if second and not A.baseline:
        tk = []
        for n, bad in second:
            tk.append((('b', n), prove_task, (ir[where[n]][0], n, 60, 4), 75))
            if nat[where[n]][0]: tk.append((('s2', n), search_task, (nat[where[n]][0], n, seed * 31 + 5, 40, os.path.join(rdir, n + '.tape')), 120))
        r2 = pool_run(tk)
    for n, bad in second:
        ok = False
        if not A.baseline:
            r = r2.get(('s2', n))
            if r and r['rc'] == 3:
                tp = os.path.join(rdir, n + '.tape')
                rc, out = replay(nat[where[n]][0], n, tp)
                if rc == 3: violations.append((n, tp, '', out[:200])); ok = True
            r = r2.get(('b', n))
            if not ok and r and 'obls' in r:
                for i, o in enumerate([o for o in r['obls'] if o['status'] == 'failed' and o['tape'] is not None][:20]):
                    tp = os.path.join(rdir, '%s.bmc%d.tape' % (n, i))
                    with open(tp, 'w') as f:
                        f.write('# harness %s\n# failed obligation: %s @%s (verifier counterexample, unrolled)\n' % (n, o['name'], o['where']))
                        for v in o['tape']: f.write(fmt(v) + '\n')
                    rc, out = replay(nat[where[n]][0], n, tp) if nat[where[n]][0] else (0, '')
                    if rc == 3:
                        open(tp, 'a').write(''.join('# ' + l + '\n' for l in out.splitlines()[:40]))
                        violations.append((n, tp, '', o['name'])); ok = True; break
                    os.unlink(tp)
        if ok: continue
        was = set(base.get(n, {}).get('proved', [])) if base.get(n, {}).get('complete') else set()
        for k, o in bad: undischarged.append('%s: %s @%s: failed' % (n, o['name'], o['where']))
        lost = [(k, o) for k, o in bad if k in was]
        if lost and not A.baseline:
            tp = os.path.join(rdir, n + '.obligation.txt')
            with open(tp, 'w') as f:
                f.write('contract %s (%s)\nno failing input was found by replaying the verifier model or by sampling\n' % (n, os.path.basename(where[n])))
                for k, o in lost: f.write('failed obligation: %s in %s\n  solver: satisfiable negation; model inputs %s\n' % (o['name'], o['where'], o['tape']))
            violations.append((n, tp, ' no-failing-input-found', lost[0][1]['name']))
    if A.baseline:
        os.makedirs(os.path.join(VERIF, 'baseline'), exist_ok=True)
        json.dump(newbase, open(os.path.join(VERIF, 'baseline', pid + '.json'), 'w'), indent=1, sort_keys=True)
    for k in kf:
        h = k['harness']
        if h in where and nat[where[h]][0]:
            tp = os.path.join(work, 'kf.tape'); open(tp, 'w').write('\n'.join(fmt(v) for v in k['tape']) + '\n')
            rc, out = replay(nat[where[h]][0], h, tp)
            if rc == 3: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    expected = set(base)
    missing = sorted(expected - set(newbase)) if not A.only else []
    for m in missing:
        if not any(u.startswith(m + ':') for u in undischarged): undischarged.append('%s: contract not evaluated' % m)
    if not tot and not iters: undischarged.append('nothing was evaluated')
    ev = dict(property=pid, tier=A.tier, seed=seed, level=cfg.get('level', 'proof') if tot or cfg.get('level') else 'other', wall_s=round(time.time() - t0, 2), violations=len(violations),
              coverage=dict(obligations=tot, discharged=dis,
                            checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, A.tier),
                            trusted_base=['clang++ 18 front end and the LLVM passes listed in check.py (PASSES)', 'engine/irdump.cpp and engine/*.py (VC generator, loop-invariant inference)', 'z3 (primary), cvc5 (fallback)'] + sorted(trusted),
                            backends=how, solver_time_s=round(solver, 2), contracts=per,
                            functions_under_contract=sorted(f for f in funcs if 'ldt::' in f),
                            assumed_contracts=sorted(replaced), undischarged=undischarged, bounded_contracts=bounded,
                            build_problems=problems, bounded_obligations=btot, bounded_discharged=bdis, symbolic_paths=paths,
                            evaluations=iters, explanation='Obligations of every contract are generated from the current /repo sources and discharged by SMT; contracts listed under bounded_contracts are decided for all values of the stated small shapes (bounded_obligations), or on sampled inputs only (names starting with nat_), and are not counted as discharged; evaluations are native executions of the same contracts on sampled inputs.'),
              assumptions=sorted(assumptions) + ['doubles are extended reals (rounding is not modelled)', 'partial correctness: termination is checked only on the native runs'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json')
    json.dump(ev, open(tmp, 'w'), indent=1)
    if A.v or os.environ.get('LDTVC_V'):
        for n in sorted(per): print(n, '%.1fs' % res[('p', n)]['wall'], per[n], res[('p', n)]['cands'])
        for k, r in res.items():
            if k[0] == 's' and r: print('  native', k[1], r['out'].strip().replace('\n', ' | ')[:200])
    print('%s: %d obligations, %d discharged, %d contracts (%d bounded: %d/%d obligations), %d native evaluations, %d undischarged notes, %.1fs' % (pid, tot, dis, len(where), len(bounded), bdis, btot, iters, len(undischarged), time.time() - t0))
    for u in undischarged[:40]: print('  undischarged:', u[:300])
    for n, tp, suf, nm in violations:
        print('  contract %s: %s' % (n, nm.strip()[:300]))
        print('VIOLATION property=%s replay=%s%s' % (pid, tp, suf))
    return 1 if violations else 0

if __name__ == '__main__':
    main()
