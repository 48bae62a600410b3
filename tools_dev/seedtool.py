"""seedtool.py defs.py [id..]: make and validate the planted bugs of a definitions file (scratch use; applies to /repo and undoes it)"""
import sys, os, subprocess, json, importlib.util
R = '/repo'; OUT = '/verif/seeded'
DEMO = '''#!/bin/sh
# fails (non-zero) if the property is broken; run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
B=_build/fbstab
g++ -std=c++11 -O1 -I. -I/usr/include/eigen3 "$D/demo.cc" $B/libfbstab_dense.a $B/libfbstab_mpc.a $B/components/libdense_components.a $B/components/libmpc_components.a -o "$T/demo" || exit 99
timeout 120 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
spec = importlib.util.spec_from_file_location('defs', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
assert not sh('git -C /repo status --porcelain').stdout.strip()
sh('bash /opt/vp/build.sh')
for b in m.BUGS:
    if sys.argv[2:] and b['id'] not in sys.argv[2:]: continue
    d = os.path.join(OUT, b['id']); os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(b.get('demo_sh', DEMO)); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cc', 'w').write(b['demo'])
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('sh %s/demo.sh' % d, cwd=R)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(R, f); s = open(p).read(); assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        bl = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/w/t.json')
        try: ts = json.load(open('/tmp/w/t.json'))
        except Exception: ts = {}
        bad = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in ts.get('passed', ts)]
        r1 = sh('sh %s/demo.sh' % d, cwd=R)
        print(b['id'], 'build', bl.returncode, 'tests', 'ok' if not bad else bad, 'demo clean', r0.returncode, 'demo bug', r1.returncode, '' if r0.returncode == 0 and r1.returncode not in (0, 99) else (r0.stdout + r1.stdout)[-600:])
    finally: sh('git -C /repo checkout -- .; bash /opt/vp/build.sh')
sh('bash /opt/vp/build.sh')
