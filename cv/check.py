"""Goals, groups and their results."""
import sys, time, traceback
from .world import *

class Goal:
    def __init__(s, group, fn, name, status, info=''): s.group, s.fn, s.name, s.status, s.info = group, fn, name, status, info
    def __repr__(s): return '[%s] %s: %s: %s %s' % (s.status, s.group, s.fn, s.name, s.info[:600])

class Group:
    """run of one proof group: goals (property-level) and obligations (safety) of the functions it executes"""
    def __init__(s, prog, name):
        s.prog, s.name = prog, name
        s.ex = Loops(prog); s.goals = []; s.errors = []; s.fn = ''; s.t = 0.0
        s.lemmas = 0
    def goal(s, name, status, info=''):
        if status is True: status = 'yes'
        elif status is False: status = 'no'
        if isinstance(status, tuple): status, info = status[0], info or str(status[1])
        if status == 'no' and 'snap@' in info: status = 'unknown'     # content the verifier could not follow
        info = info[:2000]
        s.goals.append(Goal(s.name, s.fn, name, status, info))
        return status == 'yes'
    def vec(s, name, st, a, b, timeout=6000):
        """vectors equal entry by entry (entries of the inputs are numbers)"""
        try:
            a, b = unfold(st, a), unfold(st, b)
            facts = list(st.facts)
            if a is not b and a.cols.const() == 1:
                try:
                    for x in (m_elem(a, PJ), m_elem(b, PJ)): facts += nonan(x)
                except Unsupported: pass
            r = smt.mat_same(facts, a, b, timeout)
        except Unsupported as e: r = ('unknown', str(e))
        except Violation as e: r = ('no', str(e))
        return s.goal(name, r)
    def mat(s, name, facts, a, b, timeout=4000):
        try: r = smt.mat_same(facts, a, b, timeout)
        except Unsupported as e: r = ('unknown', str(e))
        except Violation as e: r = ('no', str(e))
        return s.goal(name, r)
    def sca(s, name, facts, a, b, timeout=6000):
        r = smt.scalar_same(facts, a, b, timeout)
        if isinstance(r, tuple): r = (r[0], '%r  vs  %r' % (a, b))
        return s.goal(name, r if isinstance(r, (str, tuple)) else str(r))
    def fact(s, name, facts, g, timeout=6000):
        r = smt.check_hard(facts, g, timeout)
        return s.goal(name, r if r in ('yes', 'unknown') else ('no', '%r under %r' % (g, facts[-6:])))
    def sub(s, fn, f):
        """run one function's proof; failures to interpret the code are 'unknown'"""
        old = s.fn; s.fn = fn; t = time.time()
        try: f()
        except Unsupported as e: s.goals.append(Goal(s.name, fn, 'interpretation', 'unknown', str(e)))
        except Violation as e: s.goals.append(Goal(s.name, fn, 'interpretation', 'no', str(e)))
        except Infeasible: s.goals.append(Goal(s.name, fn, 'interpretation', 'unknown', 'infeasible'))
        except Exception as e:
            s.goals.append(Goal(s.name, fn, 'interpretation', 'unknown', 'internal: %s: %s' % (type(e).__name__, traceback.format_exc()[-700:])))
        finally: s.fn = old; s.t += time.time() - t

def nonan(x):
    out = []
    def go(x):
        if isinstance(x, S):
            for a in x.atoms():
                if a.kind in ('elem', 'sym'): out.append(bnot(isnan(S.atom(a))))
                else:
                    for g in a.args: go(g)
        elif isinstance(x, B):
            for g in x.a: go(g)
    go(x)
    return [b for b in dict.fromkeys(out)]
