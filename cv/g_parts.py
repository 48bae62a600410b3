"""Contracts of FullVariable (C17, C07), FullResidual (C01, C15) and FullFeasibility (C06)."""
from .check import *

V, R, F = 'fbstab::FullVariable', 'fbstab::FullResidual', 'fbstab::FullFeasibility'

STALE = ('stale', 'loopstale')
def stale_names(m):
    out = {b.name for b in (m.bases() | m.risk if isinstance(m, Mat) else m.bases()) if b.name.startswith(STALE) or 'stale' in b.attr}
    ns = set()
    if isinstance(m, Mat):
        for c in m.t.values(): ns |= syms(c)
        for x in m.t: ns |= wsyms(x)
    else: ns = syms(m)
    return out | {n for n in ns if n.startswith(STALE)}

def stale_free(g, what, m):
    bad = sorted(stale_names(m))
    g.goal('%s does not depend on earlier contents of the workspace' % what, not bad, str(bad)[:300])

def facts_free(g, what, st, before=()):
    """no decision was taken on earlier contents"""
    bad = set(); before = set(before)
    for f in st.facts:
        if f not in before: bad |= stale_names(f)
    g.goal('%s takes no decision on earlier contents' % what, 'unknown' if bad else 'yes', str(sorted(bad))[:300])

def outs(g, ex, s, addr, nm, args, what=None):
    """normal outcomes of a call; throwing on valid arguments is a failed goal"""
    n = 0
    for s2, o in call(ex, s, addr, nm, args):
        if o[0] == 'throw': g.fact('%s does not throw on valid arguments' % (what or nm), s2.facts, FALSE); continue
        kept(ex, s, s2, addr, nm); n += 1; yield s2, o[1]
    if not n: g.goal('%s returns' % nm, False)

def storage(g, ex, s, addr, D):
    bufs = {}
    for nm, n in zip('zlvy', (D.nz, D.nl, D.nv, D.nv)):
        v = acc(ex, s, addr, nm); bufs[nm] = v.buf
        g.fact('%s() has its size' % nm, s.facts, band(ieq(v.rows, n), ieq(v.cols, 1)))
    return bufs

def variable(g):
    ex = g.ex
    def world(margin):
        s = St(); D = Abs(ex, s)
        t = full_variable(ex, s, ('x',), D, 'x', margin); u = full_variable(ex, s, ('w',), D, 'w', margin)
        return s, D, t, u
    bx = lambda s, a: {acc(ex, s, a, k).buf for k in 'zlvy'}
    def w0():
        s, D, t, u = world(False)
        b = storage(g, ex, s, ('x',), D)
        g.goal('the four components have separate storage', len(set(b.values())) == 4)
        g.goal('two iterates share no storage', not (bx(s, ('x',)) & bx(s, ('w',))))
    g.sub('FullVariable', w0)
    def keep(s, s2, what, only=None):
        own = [(k,) if not isinstance(k, tuple) else k for k in (only if only is not None else bx(s, ('x',)))]
        d = [k for k in changed(s, s2, own) if k[:1] != ('x',)]
        g.goal('%s changes nothing but the iterate' % what, not d, str(d))
        for k in 'zlvy': g.goal('%s keeps the storage of %s' % (what, k), acc(ex, s2, ('x',), k) == acc(ex, s, ('x',), k))
    def copy():
        s, D, t, u = world(False)
        for s2, _ in outs(g, ex, s, ('x',), 'Copy', [OL(('w',))]):
            for k, m in zip('zlvy', u): g.vec('Copy: %s equals the source' % k, s2, content(ex, s2, ('x',), k), m)
            keep(s, s2, 'Copy')
    def axpy():
        s, D, t, u = world(True); a = S.sym('a')
        for s2, _ in outs(g, ex, s, ('x',), 'axpy', [a, OL(('w',))]):
            for k, m, n in zip('zlv', t, u): g.vec('axpy: %s + a*%s' % (k, k), s2, content(ex, s2, ('x',), k), m + n.scale(a))
            g.vec('axpy: the margin is that of the new z', s2, content(ex, s2, ('x',), 'y'), D.b - D.A * (t[0] + u[0].scale(a)))
            keep(s, s2, 'axpy')
    def fill():
        s, D, t, u = world(False); a = S.sym('a')
        for s2, _ in outs(g, ex, s, ('x',), 'Fill', [a]):
            for k, n in zip('zlv', (D.nz, D.nl, D.nv)): g.vec('Fill: %s is the value' % k, s2, content(ex, s2, ('x',), k), m_const(n, P.c(1), a))
            g.vec('Fill: the margin is that of z', s2, content(ex, s2, ('x',), 'y'), D.b - D.A * m_const(D.nz, P.c(1), a))
            keep(s, s2, 'Fill')
    def margin():
        s, D, t, u = world(False)
        for s2, _ in outs(g, ex, s, ('x',), 'InitializeConstraintMargin', []):
            g.vec('the margin is b - A z', s2, content(ex, s2, ('x',), 'y'), D.b - D.A * t[0])
            for k, m in zip('zlv', t): g.vec('margin: %s unchanged' % k, s2, content(ex, s2, ('x',), k), m)
            keep(s, s2, 'InitializeConstraintMargin')
    def proj():
        s, D, t, u = world(False)
        for s2, _ in outs(g, ex, s, ('x',), 'ProjectDuals', []):
            body = s_max(m_elem(t[2], PJ), S.c(0))
            g.vec('ProjectDuals: v becomes max(v,0)', s2, content(ex, s2, ('x',), 'v'), vec_from_body(body, D.nv))
            for k, m in zip('zly', (t[0], t[1], t[3])): g.vec('ProjectDuals: %s unchanged' % k, s2, content(ex, s2, ('x',), k), m)
            keep(s, s2, 'ProjectDuals')
    def norm():
        s, D, t, u = world(False)
        n2 = lambda m: m_norm2(m) * m_norm2(m)
        for s2, v in outs(g, ex, s, ('x',), 'Norm', []):
            g.sca('Norm is sqrt(|z|^2+|l|^2+|v|^2)', s2.facts, toS(ex.load(s2, v)), s_sqrt(n2(t[0]) + n2(t[1]) + n2(t[2])))
            d = changed(s, s2, ()); g.goal('Norm changes nothing', not d, str(d))
    for nm, f in (('Copy', copy), ('axpy', axpy), ('Fill', fill), ('InitializeConstraintMargin', margin), ('ProjectDuals', proj), ('Norm', norm)):
        g.sub('FullVariable::' + nm, f)

def pfb_spec(a, b, al):
    return al * (a + b - s_sqrt(a * a + b * b)) + (S.c(1) - al) * s_max(S.c(0), a) * s_max(S.c(0), b)

def residual(g):
    ex = g.ex; al, sg = S.sym('alpha'), S.sym('sigma')
    def world():
        s = St(); D = Abs(ex, s)
        t = full_variable(ex, s, ('x',), D, 'x'); u = full_variable(ex, s, ('w',), D, 'w')
        s.assume(rlt(0, al)); s.assume(rlt(al, 1)); s.assume(rlt(0, sg))
        component(ex, s, R, ('r',), (D.nz, D.nl, D.nv), D.addr, al, 'r')
        return s, D, t, u
    def free(s2, what):
        for k, m in zip('zlv', contents(s2)): stale_free(g, '%s: %s' % (what, k), m)
        facts_free(g, what, s2)
        for s3, r in outs(g, ex, s2, ('r',), 'Norm', []):
            r = toS(ex.load(s3, r)); stale_free(g, '%s: Norm()' % what, r)
    def contents(s): return [content(ex, s, ('r',), k) for k in 'zlv']
    def norms(s2, what):
        n2 = lambda m: m_norm2(m) * m_norm2(m)
        z, l, v = contents(s2)
        q = n2(z) + n2(l) + n2(v)
        facts = s2.facts + tuple(rle(0, m_norm2(x)) for x in (z, l, v) if x.t)
        for s3, r in outs(g, ex, s2, ('r',), 'Norm', []):
            g.sca('%s: Norm() is the norm of the stored vectors' % what, facts, toS(ex.load(s3, r)), s_sqrt(q))
            g.goal('Norm changes nothing', not changed(s2, s3, ()))
        for nm, x in (('z_norm', z), ('l_norm', l), ('v_norm', v)):
            for s3, r in outs(g, ex, s2, ('r',), nm, []):
                g.sca('%s: %s() is the norm of the stored block' % (what, nm), facts, toS(ex.load(s3, r)), m_norm2(x))
                g.goal('%s changes nothing' % nm, not changed(s2, s3, ()))
        for s3, r in outs(g, ex, s2, ('r',), 'Merit', []):
            m = toS(ex.load(s3, r))
            g.sca('%s: Merit() is half the squared norm' % what, facts, m, q * S.c(Fraction(1, 2)))
            g.goal('Merit changes nothing', not changed(s2, s3, ()))
    def frame(s, s2, what):
        own = {acc(ex, s, ('r',), k).buf for k in 'zlv'}
        d = [k for k in changed(s, s2, own) if k[:1] != ('r',)]
        g.goal('%s changes nothing but the residual' % what, not d, str(d))
    el = lambda m: m_elem(m, PJ)
    def inner():
        s, D, t, u = world(); z, l, v, y = t
        for s2, _ in outs(g, ex, s, ('r',), 'InnerResidual', [OL(('x',)), OL(('w',)), sg]):
            rz, rl, rv = contents(s2)
            g.vec('stationarity: Hz+f+G\'l+A\'v+sigma(z-zbar)', s2, rz, D.H * z + D.f + D.G.T() * l + D.A.T() * v + (z - u[0]).scale(sg))
            g.vec('equality: h-Gz+sigma(l-lbar)', s2, rl, D.h - D.G * z + (l - u[1]).scale(sg))
            ys = el(y) + sg * (el(v) - el(u[2]))
            g.vec('complementarity: phi(y+sigma(v-vbar), v)', s2, rv, vec_from_body(pfb_spec(ys, el(v), al), D.nv))
            free(s2, 'InnerResidual'); norms(s2, 'InnerResidual'); frame(s, s2, 'InnerResidual')
    def natural():
        s, D, t, u = world(); z, l, v, y = t
        for s2, _ in outs(g, ex, s, ('r',), 'NaturalResidual', [OL(('x',))]):
            rz, rl, rv = contents(s2)
            g.vec('stationarity: Hz+f+G\'l+A\'v', s2, rz, D.H * z + D.f + D.G.T() * l + D.A.T() * v)
            g.vec('equality: h-Gz', s2, rl, D.h - D.G * z)
            g.vec('complementarity: min(y,v)', s2, rv, vec_from_body(s_min(el(y), el(v)), D.nv))
            free(s2, 'NaturalResidual'); norms(s2, 'NaturalResidual'); frame(s, s2, 'NaturalResidual')
    def pnr():
        s, D, t, u = world(); z, l, v, y = t
        for s2, _ in outs(g, ex, s, ('r',), 'PenalizedNaturalResidual', [OL(('x',))]):
            rz, rl, rv = contents(s2)
            g.vec('stationarity: Hz+f+G\'l+A\'v', s2, rz, D.H * z + D.f + D.G.T() * l + D.A.T() * v)
            g.vec('equality: h-Gz', s2, rl, D.h - D.G * z)
            b = al * s_min(el(y), el(v)) + (S.c(1) - al) * s_max(S.c(0), el(y)) * s_max(S.c(0), el(v))
            g.vec('complementarity: alpha*min(y,v)+(1-alpha)*max(0,y)max(0,v)', s2, rv, vec_from_body(b, D.nv))
            free(s2, 'PenalizedNaturalResidual'); norms(s2, 'PenalizedNaturalResidual'); frame(s, s2, 'PenalizedNaturalResidual')
    def negate():
        s, D, t, u = world()
        rs = [vletter('r.' + k, n) for k, n in zip('zlv', (D.nz, D.nl, D.nv))]
        for k, m in zip('zlv', rs): set_content(ex, s, ('r',), k, m)
        for s2, _ in outs(g, ex, s, ('r',), 'Negate', []):
            for k, m, q in zip('zlv', rs, contents(s2)): g.vec('Negate flips %s' % k, s2, q, -m)
            frame(s, s2, 'Negate')
        # norms after an evaluation followed by a negation
        s, D, t, u = world()
        for s2, _ in outs(g, ex, s, ('r',), 'InnerResidual', [OL(('x',)), OL(('w',)), sg]):
            for s3, _ in outs(g, ex, s2, ('r',), 'Negate', []): norms(s3, 'Negate')
    def fill():
        s, D, t, u = world(); a = S.sym('a')
        for s2, _ in outs(g, ex, s, ('r',), 'Fill', [a]):
            for k, n, q in zip('zlv', (D.nz, D.nl, D.nv), contents(s2)): g.vec('Fill: %s is the value' % k, s2, q, m_const(n, P.c(1), a))
            free(s2, 'Fill'); norms(s2, 'Fill'); frame(s, s2, 'Fill')
    for nm, f in (('InnerResidual', inner), ('NaturalResidual', natural), ('PenalizedNaturalResidual', pnr), ('Negate', negate), ('Fill', fill)):
        g.sub('FullResidual::' + nm, f)

def feas_tests(D, z, l, v, tol):
    """the documented certificates"""
    inf = m_normInf
    w = inf(z)
    dual = band(rle(S.atom(Atom('maxc', D.A * z)), tol * w), rle(inf(D.G * z), tol * w), rle(inf(D.H * z), tol * w), rlt(m_dot(D.f, z), 0), rlt(S.c(Fraction('1e-14')), w))
    u = s_max(inf(v), inf(l))
    prim = band(rle(inf(D.A.T() * v + D.G.T() * l), tol * u), rle(-S.atom(Atom('maxc', -v)), S.c(0)) if False else rle(-(tol * u), -S.atom(Atom('maxc', -v))), rlt(m_dot(D.b, v) + m_dot(D.h, l), 0))
    return dual, prim

def feasibility(g):
    ex = g.ex; tol = S.sym('tol')
    enum = {}
    for i, e in ex.p.enums.items():
        if 'FeasibilityStatus' in e[0]: enum[e[1]] = e[2]
    def chk():
        s = St(); D = Abs(ex, s)
        z, l, v, y = full_variable(ex, s, ('x',), D, 'x')
        component(ex, s, F, ('q',), (D.nz, D.nl, D.nv), D.addr, None, 'q')
        s.assume(rlt(0, tol))
        dual, prim = feas_tests(D, z, l, v, tol)
        if set(enum) < {'FEASIBLE', 'DUAL_INFEASIBLE', 'PRIMAL_INFEASIBLE', 'BOTH'}: raise Unsupported('enumerators')
        from .core import Atom as A_
        fin = [bnot(isnan(S.atom(a))) for a in set().union(*(q.atoms() for b in (dual, prim) for x in b.a for q in x.a if isinstance(q, S))) if a.kind not in ('max',)]
        for f in fin: s.assume(f)
        seen = set()
        for s2, r in outs(g, ex, s, ('q',), 'CheckFeasibility', [OL(('x',)), tol]):
            r = ex.load(s2, r)
            c = r.const() if isinstance(r, P) else None
            nm = {v: k for k, v in enum.items()}.get(c)
            if nm is None: g.goal('a status is returned', 'unknown', repr(r)); continue
            seen.add(nm); facts_free(g, 'the verdict', s2)
            g.fact('%s: dual certificate' % nm, s2.facts, dual if nm in ('DUAL_INFEASIBLE', 'BOTH') else bnot(dual))
            g.fact('%s: primal certificate' % nm, s2.facts, prim if nm in ('PRIMAL_INFEASIBLE', 'BOTH') else bnot(prim))
            d = [k for k in changed(s, s2, ()) if k[:1] != ('q',)]
            g.goal('changes nothing but its workspace', not d, str(d))
        g.goal('all four statuses are reachable', len(seen) == 4, str(seen))
    g.sub('FullFeasibility::CheckFeasibility', chk)
