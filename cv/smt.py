"""Discharging scalar obligations: translation of B formulas to z3 (integers with
linearised nonlinear monomials, doubles as reals-plus-NaN)."""
import z3, time
from .core import *
from . import core

STATS = dict(queries=0, time=0.0, unknown=0, unsat=0, sat=0)
_cache = {}

class Tr:
    def __init__(self):
        self.iv = {}; self.rv = {}; self.nv = {}; self.ax = []; self.elems = {}
        self.bs = {}; self.memo = {}; self.aax = {}; self.cur = None; self.owner = None
    def mono(self, m):
        if len(m) == 1:
            v = self.iv.get(m)
            if v is None: v = self.iv[m] = z3.Int('i_' + m[0])
            return v
        v = self.iv.get(m)
        if v is None: v = self.iv[m] = z3.Int('im_' + '*'.join(m))
        return v
    def P(self, p):
        r = []
        for m, c in p.t.items():
            r.append(z3.IntVal(c) if not m else (self.mono(m) if c == 1 else c * self.mono(m)))
        if not r: return z3.IntVal(0)
        return r[0] if len(r) == 1 else z3.Sum(r)
    def atom(self, a):
        """-> (value, nan); the axioms of an atom are kept per atom, with the atoms below it"""
        r = self.rv.get(a)
        if r is None:
            ax, cur = self.ax, self.cur
            self.ax, self.cur = [], set()
            r = self.atom1(a)
            self.aax[a] = (self.ax, self.cur)
            self.ax, self.cur = ax, cur
        self.cur.add(a)
        return r
    def closure(self, atoms):
        """all axioms needed by a set of atoms"""
        seen = set(); todo = list(atoms); out = []; el = {}
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            ax, sub = self.aax[a]
            out += ax; todo += sub
            if a.kind == 'elem': el.setdefault(a.args[0], []).append(a)
        for w, l in el.items():
            l.sort(key=lambda a: a.id)
            for k, a in enumerate(l):
                i = a.args[1]; v, n = self.rv[a]
                for b in l[:k]:
                    i2 = b.args[1]; v2, n2 = self.rv[b]
                    d = (i - i2).const()
                    if d is None or d == 0:
                        out.append(z3.Implies(self.P(i) == self.P(i2), z3.And(v == v2, n == n2)))
        return out
    def F(self, b):
        """translation of a formula and the atoms it mentions"""
        r = self.memo.get(b)
        if r is None:
            self.cur = set(); e = self.B(b)
            r = self.memo[b] = (e, frozenset(self.cur))
        return r
    def atom1(self, a):
        k, g = a.kind, a.args
        F = z3.BoolVal(False)
        def mk(nan=True):
            v = z3.Real('r%d' % a.id); n = z3.Bool('n%d' % a.id) if nan else F
            self.rv[a] = (v, n); return v, n
        if k == 'sym': mk()
        elif k == 'isym':
            self.rv[a] = (z3.ToReal(self.mono((g[0],))), F)
        elif k == 'nan':
            self.rv[a] = (z3.RealVal(0), z3.BoolVal(True))
        elif k == 'elem':
            v, n = mk()
            w, i = g
            if len(w) == 1 and w[0][0] == 'b' and 'nonneg' in w[0][1].attr:
                self.ax.append(z3.Or(n, v >= 0))
        elif k == 'inv':
            x, nx = self.S(g[0]); v, n = mk()
            self.ax.append(z3.Implies(z3.And(z3.Not(nx), x != 0), z3.And(v * x == 1, z3.Not(n))))
            self.ax.append(z3.Implies(nx, n))
            self.ax.append(z3.Implies(x > 0, v > 0)); self.ax.append(z3.Implies(x < 0, v < 0))
        elif k == 'sqrt':
            x, nx = self.S(g[0]); v = z3.Real('r%d' % a.id)
            n = z3.Or(nx, x < 0)
            self.rv[a] = (v, n)
            self.ax.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
        elif k in ('max', 'min'):
            x, nx = self.S(g[0]); y, ny = self.S(g[1])
            c = z3.And(z3.Not(nx), z3.Not(ny), x < y if k == 'max' else y < x)
            self.rv[a] = (z3.If(c, y, x), z3.If(c, ny, nx))
        elif k == 'abs':
            x, nx = self.S(g[0])
            self.rv[a] = (z3.If(x < 0, -x, x), nx)
        elif k == 'ite':
            c = self.B(g[0]); x, nx = self.S(g[1]); y, ny = self.S(g[2])
            self.rv[a] = (z3.If(c, x, y), z3.simplify(z3.If(c, nx, ny)))
        elif k == 'flt':
            x, nx = self.S(g[0]); v = z3.Real('r%d' % a.id); self.rv[a] = (v, nx)
            self.ax.append(z3.Implies(x >= 0, v >= 0)); self.ax.append(z3.Implies(x <= 0, v <= 0))
        elif k in ('norm2', 'normInf', 'norm1'):
            v, n = mk(); self.ax.append(v >= 0)
        elif k == 'pow':
            v, n = mk(); b, nb = self.S(g[0])
            self.ax.append(z3.Implies(b > 0, v > 0)); self.ax.append(n == nb)
        else: mk()
        return self.rv[a]
    def S(self, s):
        nans = []; terms = []
        seen = set()
        for m, c in s.t.items():
            x = None
            for a, e in m:
                v, n = self.atom(a)
                if a not in seen:
                    seen.add(a)
                    if not z3.is_false(n): nans.append(n)
                for _ in range(e): x = v if x is None else x * v
            cc = z3.RealVal(str(c))
            terms.append(cc if x is None else (x if c == 1 else cc * x))
        v = z3.RealVal(0) if not terms else terms[0] if len(terms) == 1 else z3.Sum(terms)
        n = z3.BoolVal(False) if not nans else nans[0] if len(nans) == 1 else z3.Or(nans)
        return v, n
    def B(self, b):
        k = b.k
        if k == 'true': return z3.BoolVal(True)
        if k == 'false': return z3.BoolVal(False)
        if k == 'not': return z3.Not(self.B(b.a[0]))
        if k == 'and': return z3.And([self.B(x) for x in b.a])
        if k == 'or': return z3.Or([self.B(x) for x in b.a])
        if k == 'ile': return self.P(b.a[0]) <= self.P(b.a[1])
        if k == 'ieq': return self.P(b.a[0]) == self.P(b.a[1])
        if k in ('rle', 'rlt', 'req'):
            x, nx = self.S(b.a[0]); y, ny = self.S(b.a[1])
            c = {'rle': x <= y, 'rlt': x < y, 'req': x == y}[k]
            ns = [z3.Not(n) for n in (nx, ny) if not z3.is_false(n)]
            return z3.And(ns + [c]) if ns else c
        if k == 'isnan': return self.S(b.a[0])[1]
        if k == 'vzero':        # value (ignoring NaN) is zero
            return self.S(b.a[0])[0] == 0
        if k == 'same':
            x, nx = self.S(b.a[0]); y, ny = self.S(b.a[1])
            return z3.And(nx == ny, z3.Or(nx, x == y))
        if k == 'bsym':
            v = self.bs.get(b.a[0])
            if v is None: v = self.bs[b.a[0]] = z3.Bool('b_' + str(b.a[0]))
            return v
        # opaque predicate
        v = self.bs.get(b)
        if v is None: v = self.bs[b] = z3.Bool('o%d' % len(self.bs))
        return v

GT = Tr()

def int_facts(facts, neg=False):
    """polynomials known to be >= 0"""
    out = []
    for f in facts:
        if f.k == 'not': out += int_facts(f.a, not neg)
        elif not neg:
            if f.k == 'ile': out.append(f.a[1] - f.a[0])
            elif f.k == 'and': out += int_facts(f.a)
        else:
            if f.k == 'ile': out.append(f.a[0] - f.a[1] - 1)
            elif f.k == 'or': out += int_facts(f.a, True)
    return out

def int_eqs(facts):
    out = []
    for f in facts:
        if f.k == 'ieq': out.append(f.a[0] - f.a[1])
        elif f.k == 'and': out += int_eqs(f.a)
    return out

def relevant(facts, goal):
    """facts connected to the goal through shared symbols/atoms."""
    return facts

def products(nn, eqs, monos):
    """products (degree 2 and 3) of nonnegative polynomials whose monomials all occur"""
    res = []; seen = set()
    deg = max([len(m) for m in monos] or [0])
    base = []
    for p in nn:
        if p.const() is None and p not in base: base.append(p)
    # constants dropped: p-1>=0 with p>=1 also gives p>=0
    ext = list(base)
    for p in base:
        c = p.t.get((), 0)
        if c < 0 and p - c not in ext: ext.append(p - c)
    base = ext
    cand = []
    if deg >= 3 and len(base) > 16:
        big = {x for m in monos if len(m) >= 3 for x in P({m: 1}).syms()}
        base3 = [p for p in base if set(p.syms()) <= big][:16]
        for i in range(len(base3)):
            for j in range(i, len(base3)):
                for k in range(j, len(base3)):
                    q = base3[i] * base3[j] * base3[k]
                    if q not in seen and all(len(m) < 2 or m in monos for m in q.t): seen.add(q); res.append(q)
    for i in range(len(base)):
        for j in range(i, len(base)):
            p = base[i] * base[j]
            if p in seen: continue
            seen.add(p)
            if all(len(m) < 2 or m in monos for m in p.t): res.append(p)
            if deg >= 3: cand.append((p, j))
    if deg >= 3 and len(base) <= 16:
        for p, j in cand:
            for k in range(j, len(base)):
                q = p * base[k]
                if q in seen: continue
                seen.add(q)
                if all(len(m) < 2 or m in monos for m in q.t): res.append(q)
    return res

def all_monos(ps):
    return {m for p in ps for m in p.t if len(m) >= 2}

def is_int(b):
    k = b.k
    if k in ('ile', 'ieq', 'true', 'false'): return True
    if k in ('not', 'and', 'or'): return all(is_int(x) for x in b.a)
    return False

def polys_of(b, out):
    if b.k in ('ile', 'ieq'): out += [b.a[0], b.a[1]]
    elif b.k in ('not', 'and', 'or'):
        for x in b.a: polys_of(x, out)

def check(facts, goal, timeout=4000, want_model=False):
    """facts |= goal ?  -> 'yes' | ('no', model, tr) | 'unknown'"""
    if goal is TRUE: return 'yes'
    fs = frozenset(facts)
    if goal in fs: return 'yes'
    if goal.k == 'and':
        last = 'yes'
        for g in goal.a:
            r = check(facts, g, timeout, want_model)
            if r != 'yes': return r
        return 'yes'
    key = (fs, goal)
    if key in _cache and not want_model: return _cache[key]
    t0 = time.time()
    if is_int(goal):
        facts = [f for f in facts if is_int(f)]
        if any(f.k == 'ieq' for f in facts):
            sub = subst_from_facts(facts)
            if sub:
                goal = goal.subst_i(sub); facts = [f.subst_i(sub) for f in facts]
    r = _check(facts, goal, timeout)
    STATS['queries'] += 1; STATS['time'] += time.time() - t0
    _cache[key] = r if r in ('yes', 'unknown') else ('no', None, None)
    STATS['unsat' if r == 'yes' else 'unknown' if r == 'unknown' else 'sat'] += 1
    return r

def _check(facts, goal, timeout):
    tr = GT
    g, at = tr.F(goal); at = set(at)
    s = z3.Solver(); s.set('timeout', timeout)
    l = []
    for f in facts:
        e, fa = tr.F(f); l.append(e); at |= fa
    s.add(l + tr.closure(at) + [z3.Not(g)])
    r = s.check()
    if r == z3.unsat: return 'yes'
    # nonlinear integer help
    nn = int_facts(facts)
    ps = list(nn); polys_of(goal, ps)
    for f in facts: polys_of(f, ps)
    monos = all_monos(ps)
    if monos:
        neg = bnot(goal)
        nn2 = nn + int_facts([neg])
        eqs = int_eqs(list(facts) + [neg])
        prod = products(nn2, eqs, monos | {m for m in all_monos(ps)})
        # multiply equalities by symbols
        syms = {x for p in ps for x in p.syms()}
        for e in eqs:
            for x in syms:
                p = e * P.sym(x)
                if all(len(m) < 2 or m in monos for m in p.t): s.add(tr.P(p) == 0)
        for p in prod: s.add(tr.P(p) >= 0)
        r = s.check()
        if r == z3.unsat: return 'yes'
    if r == z3.unknown: return 'unknown'
    return ('no', s.model(), tr)

def check_hard(facts, goal, timeout=6000):
    """check; an 'unknown' is retried in fresh solver contexts and with cvc5"""
    r = check(facts, goal, timeout)
    if r != 'unknown': return r
    if goal.k == 'and':
        for g in goal.a:
            r = check_hard(facts, g, timeout)
            if r != 'yes': return r
        return 'yes'
    tr = GT; g, at = tr.F(goal); at = set(at)
    s = z3.Solver(); l = []
    for f in facts:
        e, fa = tr.F(f); l.append(e); at |= fa
    s.add(l + tr.closure(at) + [z3.Not(g)])
    txt = s.to_smt2()
    for seed, lim in ((1, 8000), (7, 8000), (42, 15000)):
        c = z3.Context(); s2 = z3.Solver(ctx=c); s2.set('timeout', lim); s2.set('random_seed', seed)
        s2.from_string(txt); STATS['queries'] += 1
        r = s2.check()
        if r == z3.unsat: STATS['unsat'] += 1; _cache[(frozenset(facts), goal)] = 'yes'; return 'yes'
        if r == z3.sat: break
    import subprocess, shutil
    if r != z3.sat and shutil.which('cvc5'):
        try:
            o = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=20000', '-'], input='(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=30).stdout
            if o.strip().startswith('unsat'): STATS['cvc5'] = STATS.get('cvc5', 0) + 1; return 'yes'
        except Exception: pass
    return 'unknown' if r != z3.sat else ('no', None, None)

def prove(facts, goal, timeout=4000):
    return check(facts, goal, timeout) == 'yes'

def feasible(facts, timeout=2000):
    r = check(facts, FALSE, timeout)
    return r != 'yes'

def subst_from_facts(facts):
    """integer substitution implied by equalities sym == poly in facts"""
    sub = {}
    for e in int_eqs(facts):
        e = e.subst(sub)
        for m, c in e.t.items():
            if len(m) == 1 and abs(c) == 1 and e.coeff_of(m[0]) is not None and e.coeff_of(m[0])[0].const() is not None:
                rest = (e - P({m: c})) * (-c)
                # avoid cyclic
                s = m[0]
                sub = {k: v.subst({s: rest}) for k, v in sub.items()}
                sub[s] = rest
                break
    return sub

def scalar_same(facts, a, b, timeout=4000):
    a, b = toS(a), toS(b)
    if a is b: return 'yes'
    sub = subst_from_facts(facts)
    if sub:
        a, b = a.subst_i(sub), b.subst_i(sub)
        if a is b: return 'yes'
    return check(facts, B('same', a, b), timeout)

def mat_same(facts, a, b, timeout=4000):
    """'yes' / ('no', why) / ('unknown', why)"""
    if a is b: return 'yes'
    sub = subst_from_facts(facts)
    if sub: a, b = a.subst_i(sub), b.subst_i(sub)
    for x, y in ((a.rows, b.rows), (a.cols, b.cols)):
        if x is not y and not prove(facts, ieq(x, y)): return ('no', 'dimensions differ: %r vs %r' % (x, y))
    d = a.with_(valid='full', risk=frozenset()) - b.with_(valid='full', risk=frozenset())
    if a.risk - b.risk: return ('no', 'value may be NaN through 0 * %r' % (sorted(map(repr, a.risk - b.risk)),))
    if a.valid != b.valid and a.valid != 'full': return ('no', 'only one triangle set')
    rem = {}
    for w, c in d.t.items():
        if check(facts, B('vzero', c), timeout) != 'yes': rem[w] = c
    if not rem: return 'yes'
    # elementwise comparison for vectors
    if a.cols.const() == 1:
        try:
            body = m_elem(Mat(d.rows, d.cols, rem), PJ)
        except Unsupported:
            return ('no', 'difference %r' % (Mat(d.rows, d.cols, rem),))
        if not body.t: return 'yes'
        rng = [ile(P.c(0), PJ), ilt(PJ, a.rows)]
        try:
            ea, eb = m_elem(a, PJ), m_elem(b, PJ)
            r = check(list(facts) + rng, B('same', ea, eb), timeout)
        except Unsupported:
            r = check(list(facts) + rng, B('vzero', body), timeout)
        if r == 'yes': return 'yes'
        # linear words cannot cancel against each other unless atoms are related
        return ('no' if r != 'unknown' else 'unknown', 'difference %r' % (Mat(d.rows, d.cols, rem),), r)
    return ('no', 'difference %r' % (Mat(d.rows, d.cols, rem),))
