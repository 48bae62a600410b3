"""Run one proof group on a source tree and write its results: rungroup.py mod.fn repo out.json"""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib, resource, traceback

def main(name, repo, out):
    t = time.time(); r = dict(group=name, goals=[], obls=[], error=None)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from cv import smt, cxx
        from cv.check import Group
        mod, fn = name.split('.')
        p = cxx.Program(repo)
        g = Group(p, name)
        getattr(importlib.import_module('cv.' + mod), fn)(g)
        r['goals'] = [dict(fn=x.fn, name=x.name, status=x.status, info=str(x.info)[:1500]) for x in g.goals]
        r['obls'] = [dict(cat=o.cat, site=str(o.site), what=str(o.what), status=o.status, info=str(o.info)[:800], n=o.n) for o in g.ex.obls.values()]
        r['functions'] = sorted({'%s::%s' % ((f.cls or '').replace('fbstab::', '').split('<')[0], f.name) for f in g.ex.inlined.values()})
        r['contracts_used'] = sorted({'%s::%s' % ((c or '').replace('fbstab::', '').split('<')[0], f) for c, f in g.ex.called})
        r['trusted'] = sorted(getattr(g.ex, 'trusted', ()))
        r['smt'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in smt.STATS.items()}
    except BaseException as e:
        r['error'] = '%s: %s' % (type(e).__name__, traceback.format_exc()[-1500:])
    r['wall'] = round(time.time() - t, 2)
    json.dump(r, open(out, 'w'))

if __name__ == '__main__': main(*sys.argv[1:4])
