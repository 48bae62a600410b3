#!/usr/bin/env python3
"""Check one property: run_check.py <id> [quick|thorough]

Discharges the proof obligations of the property on /repo's current source.  If one is not discharged, the property is replayed
against the real code (harness); see DESIGN.md."""
import sys, os, json, time, subprocess, tempfile, shutil, re, signal
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
REPO = os.environ.get('FB_REPO', '/repo')
from cv import props
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
QUICK_S, THOROUGH_S, GROUP_S, NP = 60, 240, 420, 8

def prove(names, scratch):
    """run the groups in parallel, each in its own process"""
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    slow = ['g_alg.dense', 'g_alg.dense_map', 'g_alg.mpc', 'g_alg.mpc_map', 'g_newton.riccati_newton', 'g_ops.ops_mpc']
    todo = sorted(names, key=lambda n: slow.index(n) if n in slow else 9)
    run = {}; res = {}; t0 = time.time()
    while todo or run:
        while todo and len(run) < NP:
            n = todo.pop(0); o = os.path.join(scratch, n + '.json')
            run[n] = (subprocess.Popen([PY, os.path.join(HERE, 'cv', 'rungroup.py'), n, REPO, o], env=env, cwd=scratch,
                                       stdout=open(o + '.log', 'w'), stderr=subprocess.STDOUT, start_new_session=True), o, time.time())
        time.sleep(0.1)
        for n, (p, o, t) in list(run.items()):
            late = time.time() - t > GROUP_S
            if p.poll() is None and not late: continue
            if p.poll() is None: os.killpg(p.pid, signal.SIGKILL); p.wait()
            try: res[n] = json.load(open(o))
            except Exception: res[n] = dict(group=n, goals=[], obls=[], error='no result (%s)' % ('time limit' if late else 'exit %s' % p.returncode), wall=time.time() - t)
            del run[n]
    return res, time.time() - t0

def sources():
    d = os.path.join(REPO, 'fbstab')
    out = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cc')]
    d2 = os.path.join(d, 'components')
    out += [os.path.join(d2, f) for f in os.listdir(d2) if f.endswith('.cc')]
    return sorted(out)

def build(scratch):
    """compile /repo's sources and the harness"""
    h = os.path.join(HERE, 'harness'); jobs = []; objs = []
    flags = ['-std=c++14', '-O1', '-g0', '-fsanitize=address', '-fno-omit-frame-pointer', '-I' + REPO, '-I/usr/include/eigen3']
    log = open(os.path.join(scratch, 'build.log'), 'w')
    src = sources() + [os.path.join(h, f) for f in sorted(os.listdir(h)) if f.endswith('.cc')]
    src.sort(key=lambda f: -('harness' in f))
    for i, f in enumerate(src):
        o = os.path.join(scratch, '%d.o' % i); objs.append(o)
        jobs.append(subprocess.Popen(['g++'] + flags + ['-c', f, '-o', o], stdout=log, stderr=log))
    bad = [p.wait() for p in jobs]
    if any(bad): return None
    b = os.path.join(scratch, 'h')
    return b if subprocess.call(['g++', '-fsanitize=address'] + objs + ['-o', b], stdout=log, stderr=log) == 0 else None

def replay(pid, seed, scratch, secs):
    """run the property's executable oracle on the real code; (failing text or None, iterations)"""
    b = build(scratch)
    if b is None: return None, 0, 'the harness does not build against the current source'
    n = 10 ** 7; runs = []
    lits = subprocess.run([sys.executable, os.path.join(HERE, 'harness', 'dict.py'), REPO], stdout=subprocess.PIPE, text=True).stdout.strip()
    for k in range(NP):
        o = os.path.join(scratch, 'run%d' % k)
        fill = (0xbe, 0x00, 0xff, 0x7f)[k % 4]
        env = dict(os.environ, FB_PROGRESS='1', FB_DICT=lits, ASAN_OPTIONS='detect_leaks=0:malloc_fill_byte=%d:max_malloc_fill_size=1000000' % fill)
        runs.append((subprocess.Popen([b, pid, str(seed + k), '0', str(n), str(secs)], stdout=open(o, 'w'), stderr=subprocess.STDOUT, env=env), o, k))
    fail = None; iters = 0; end = time.time() + secs + 40; live = list(runs)
    while live:
        time.sleep(0.1)
        for r in list(live):
            p, o, k = r
            if p.poll() is None:
                if time.time() < end and not fail: continue
                p.kill(); p.wait(); live.remove(r); continue
            live.remove(r)
            txt = open(o, errors='replace').read()
            if p.returncode == 0:
                m = re.search(r'DONE .*iterations=(\d+)', txt); iters += int(m.group(1)) if m else 0
            else:
                its = re.findall(r'ITER (\d+)', txt)
                lines = [l for l in txt.splitlines() if not l.startswith('ITER ')]
                if fail is None or k < fail[1]:
                    fail = (('exit %s, harness arguments: %s %d %s 1\n' % (p.returncode, pid, seed + k, its[-1] if its else '0')) + '\n'.join(lines[-60:])[:6000], k)
                    end = 0
    return (fail[0] if fail else None), iters, None

def known(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    except OSError: pass
    return out

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='fbcheck.')
    try:
        res, tp = prove(props.groups(pid), scratch)
        own, dep, und = [], [], []; total = done = 0; samples = []
        for n, r in res.items():
            if r.get('error'): und.append('%s: %s' % (n, r['error'][-400:]))
            for g in r['goals']:
                mine = props.is_own(pid, n, g['fn'], g['name'])
                if not mine and n in props.own_groups(pid) and n not in props.DEP[pid] and g['name'] != 'interpretation': continue
                total += 1; done += g['status'] == 'yes'
                if mine and g['status'] == 'yes' and len(samples) < 12: samples.append('%s: %s' % (g['fn'], g['name']))
                if g['status'] == 'yes': continue
                txt = '[%s] %s %s: %s  %s' % (g['status'], n, g['fn'], g['name'], g['info'])
                (und if g['status'] != 'no' else own if mine else dep).append(txt)
            for o in r['obls']:
                if o['status'] == 'yes':
                    total += 1; done += 1
                    if props.safe_own(pid, n) and len(samples) < 12: samples.append('%s at %s: %s' % (o['cat'], o['site'], o['what']))
                    continue
                total += 1
                txt = '[%s] %s obligation %s at %s: %s  %s' % (o['status'], n, o['cat'], o['site'], o['what'], o['info'])
                (own if o['status'] == 'no' and props.safe_own(pid, n) else dep if o['status'] == 'no' else und).append(txt)
        if not samples and not (own or dep): und.append('no goal of the property was generated')
        proved = not (own or dep or und)
        fail = None; iters = 0; note = None
        if not proved or tier == 'thorough':
            fail, iters, note = replay(pid, seed, scratch, THOROUGH_S if tier == 'thorough' else QUICK_S)
        kn = known(pid); text = '\n'.join(own + dep + und)
        listed = []
        for m, what in kn:
            if (fail and m in fail) or any(m in x for x in own): listed.append((m, what))
        own_new = [x for x in own if not any(m in x for m, _ in listed)]
        fail_new = fail if fail and not any(m in fail for m, _ in listed) else None
        for m, what in listed: print('KNOWN-FINDING: property=%s %s' % (pid, what))
        viol = bool(fail_new or own_new)
        fns = sorted({f for r in res.values() for f in r.get('functions', [])})
        cts = sorted({f for r in res.values() for f in r.get('contracts_used', [])})
        smt = {}
        for r in res.values():
            for k, v in r.get('smt', {}).items(): smt[k] = round(smt.get(k, 0) + v, 2)
        cov = dict(obligations=total, discharged=done,
                   checker_cmd='python3-vt cv/rungroup.py <group> /repo out.json for <group> in: ' + ' '.join(res),
                   trusted_base=TRUSTED, functions_under_contract=fns, contracts_used_at_calls=cts, solver=smt,
                   back_ends='cv normaliser (exact algebra) and z3 5.3.2 (cvc5 on retry)', groups={n: dict(goals=len(r['goals']), obligations=len(r['obls']), wall_s=r.get('wall')) for n, r in res.items()},
                   samples=samples, undischarged=(own + dep + und)[:20])
        if iters or fail or note: cov['bounded_stand_in'] = dict(label='bounded, never counted as proved', iterations=iters, note=note or 'randomised replay of the property against the real code (harness), %d processes' % NP)
        json.dump(dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=int(viol)),
                  open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
        if not viol:
            print('%s %s: %d of %d obligations discharged%s, %.1f s' % (pid, 'PROVED' if proved else 'UNDECIDED BY PROOF, bounded replay found nothing', done, total,
                  '' if not iters else ', %d replay iterations (bounded)' % iters, time.time() - t0))
            for x in (own + dep + und)[:6]: print('  ' + x[:300])
            return 0
        rp = os.path.join(ev, 'replay-%s.txt' % pid)
        with open(rp, 'w') as f:
            if fail_new: f.write('FAILING INPUT on the real code (harness/run.sh %s <seed> <iteration> 1 replays it):\n%s\n\n' % (pid, fail_new))
            f.write('FAILED OBLIGATIONS of the property:\n%s\n\nOF CONTRACTS IT RELIES ON:\n%s\n\nUNDECIDED:\n%s\n' % ('\n'.join(own), '\n'.join(dep), '\n'.join(und)))
        for x in (own + dep)[:4]: print('  ' + x[:300])
        if fail_new: print('  ' + fail_new[:600].replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if fail_new else ' no-failing-input-found'))
        return 1
    finally: shutil.rmtree(scratch, ignore_errors=True)

TRUSTED = ['cv: the verifier itself (clang AST import, symbolic execution, exact algebra, loop invariants inferred and checked)',
           'clang 18 front end (AST of the code as compiled)', 'z3 5.3.2, cvc5',
           'contracts of Eigen and std containers (cv/eig.py, cv/exec.py): arithmetic, blocks, maps, LLT/LDLT (Success implies an exact factorisation)']
ASSUME = ['real arithmetic: rounding, overflow and underflow of double are not modelled (NaN inputs are where a goal mentions them)',
          'machine integers are mathematical integers (no overflow of int sizes and indices)',
          'inputs are numbers and meet the documented preconditions (sizes, 0<alpha<1, sigma>0) unless the property is about their validation']
if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); print('internal error of the check: no verdict'); sys.exit(2)
