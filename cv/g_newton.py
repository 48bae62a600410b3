"""Newton systems: contracts of the dense and the Riccati linear solver (C03, C04, C15)."""
from .g_parts import *
from .g_ops import mpc_contracts, stage_rows
from .core import Atom

DBG = False
DENSE, RICC = 'fbstab::DenseCholeskySolver', 'fbstab::RiccatiLinearSolver'

# ---------------------------------------------------------------- expanding definitions
def expand(ex, st, x, what=('snap', 'elem')):
    """replace element letters and element reads of snapshots by what they stand for"""
    snaps = {d.data[0].name: d for d in st.defs if d.kind == 'snap'}
    elems = {d.data[0].name: d for d in st.defs if d.kind == 'elem'}
    def g(a):
        if a.kind == 'elem' and len(a.args[0]) == 1 and a.args[0][0][0] == 'b':
            l = a.args[0][0]; b = l[1]
            d = snaps.get(b.name) if 'snap' in what else None
            if d is not None and b.cols.const() == 1:
                b0, buf, reg = d.data
                sub = {i.syms().__iter__().__next__(): j for i, j in zip(b0.idx, b.idx) if i is not j}
                k = l[2] + a.args[1]
                r = Region(reg.idx, reg.r0 + k, reg.c0, 1, 1, reg.ld)
                v = buf.read(st.facts, r)
                return expand(ex, st, m_elem(v, P.c(0)).subst_i(sub), what)
            d = elems.get(b.name) if 'elem' in what else None
            if d is not None:
                b0, body = d.data
                sub = {i.syms().__iter__().__next__(): j for i, j in zip(b0.idx, b.idx) if i is not j}
                return expand(ex, st, body.subst_i(sub).subst_i({'$j': l[2] + a.args[1]}), what)
        ar = tuple(expand(ex, st, y, what) if isinstance(y, (S, B)) else y for y in a.args)
        if ar == a.args: return None
        from .core import rebuild
        return rebuild(a.kind, ar)
    if isinstance(x, S): return x.map_atoms(g)
    if isinstance(x, B):
        if not x.bases(): return x
        return mkB(x.k, *tuple(expand(ex, st, y, what) if isinstance(y, (S, B)) else y for y in x.a))
    return x

# ---------------------------------------------------------------- linear certificates
def flat(m):
    out = {}
    for w, c in m.t.items():
        for mono, q in c.t.items(): out[(w, mono)] = Fraction(q)
    return out

def certify(goal, zeros):
    """goal (Mat) is a rational combination of the zero vectors: True with the combination, or the remainder"""
    g = flat(goal)
    if not g: return True
    rows = []
    for z in zeros:
        v = flat(z)
        for piv, p in rows:
            c = v.get(piv)
            if c:
                for k, q in p.items():
                    r = v.get(k, 0) - c * q
                    if r: v[k] = r
                    else: v.pop(k, None)
        if not v: continue
        piv = min(v, key=lambda k: (k not in g, hash(k)))
        c = v[piv]; v = {k: q / c for k, q in v.items()}
        rows = [(pv_, sub(p, v, p.get(piv, 0))) for pv_, p in rows]
        rows.append((piv, v))
    for piv, p in rows:
        c = g.get(piv)
        if c: g = sub(g, p, c)
    return True if not g else g

def sub(v, p, c):
    if not c: return v
    v = dict(v)
    for k, q in p.items():
        r = v.get(k, 0) - c * q
        if r: v[k] = r
        else: v.pop(k, None)
    return v

# ---------------------------------------------------------------- the gradient used by a solver
def stored_vectors(ex, st, addr, n):
    """entry $j of every vector of n numbers kept under addr"""
    out = {}
    k_ = P.sym('$k'); f = tuple(st.facts) + (ile(0, k_), ilt(k_, n))
    for k, b in st.bufs.items():
        if k[:len(addr)] != addr or b.vec: continue
        mo = st.cells.get(k)
        rows = getattr(mo, 'rows', None); cols = getattr(mo, 'cols', None)
        if rows is None or cols.const() != 1 or not smt.prove(st.facts, ieq(rows, n)): continue
        try: out[k] = m_elem(b.read(f, Region(None, k_, 0, 1, 1, rows)), P.c(0)).subst_i({'$k': PJ})
        except (PartialRead, Unsupported): continue
    return out

def deep(st, m):
    """element letters replaced by their definitions inside a matrix"""
    return unfold(st, m)

def find_gradient(g, ex, s1, addr, n, ok):
    """the pair (gamma, d) among the solver's stored vectors for which ok(gamma, d) holds"""
    c = {k: v for k, v in stored_vectors(ex, s1, addr, n).items() if not any('stale' in b.attr or b.name.startswith('stale') for b in v.bases())}
    for k1, a in c.items():
        for k2, b in c.items():
            if k1 == k2: continue
            if ok(a, b): return a, b
    return None

def map_scal(m, f):
    """apply f to every scalar in a matrix value (coefficients and diagonal / elementwise bodies)"""
    out = Mat(m.rows, m.cols, {}, m.valid, m.risk)
    def letter(l):
        if l[0] == 'd': return diag_from_body(f(l[1]), l[2])
        if l[0] == 'e':
            v = vec_from_body(f(l[1]), l[2]); return v.T() if l[3] else v
        return None
    for w, c in m.t.items():
        x = None
        for l in w:
            q = letter(l)
            q = Mat.letter(l) if q is None else q
            x = q if x is None else x * q
        if x is None: x = Mat(m.rows, m.cols, {(): S.c(1)})
        out = out + x.scale(f(c))
    return out

def one_atom(x):
    if len(x.t) != 1: return None
    (m, c), = x.t.items()
    return m[0][0] if c == 1 and len(m) == 1 and m[0][1] == 1 else None

def sq_reduce(x):
    """sqrt(p)^2 = p for the square roots of nonnegative quantities"""
    r = S({}); ch = False
    for mono, c in x.t.items():
        t = S.c(c)
        for a, k in mono:
            q = None
            if a.kind == 'sqrt': q = a.args[0]
            elif a.kind == 'inv':
                b = a.args[0].single() if hasattr(a.args[0], 'single') else one_atom(a.args[0])
                if b is not None and b.kind == 'sqrt': q = s_inv(b.args[0])
            if q is not None and k >= 2:
                ch = True
                for _ in range(k // 2): t = t * q
                if k % 2: t = t * S.atom(a)
            else:
                for _ in range(k): t = t * S.atom(a)
        r = r + t
    return r if ch else x

class Denominator:
    """replaces 1/d by 1/letter, where d (a function of $j) is nonzero"""
    def __init__(s, d, n, shifts=(P.c(0),)):
        s.base = Base('newton.d', n, 1)
        s.tab = {}
        for sh in shifts:
            t = s_inv(d.subst_i({J: PJ + sh}))
            if len(t.t) != 1: continue
            (mono, c), = t.t.items()
            if len(mono) != 1 or mono[0][1] != 1: continue
            s.tab[mono[0][0]] = s_inv(s.el(sh)) * S.c(1 / c)
    def el(s, sh=P.c(0)): return S.atom(Atom('elem', (mk_b(s.base),), PJ + sh))
    def S(s, x):
        def g(a):
            if a in s.tab: return s.tab[a]
            return None
        return x.map_atoms(g)
    def M(s, m): return map_scal(m, s.S)

def grad_lemma(g, facts, gam, mu, a, b, al, sg, what):
    """(gam, mu) is the gradient of the penalized Fischer-Burmeister function at (a, b)"""
    Z = S.c(0); one_ = S.c(1)
    r = s_sqrt(a * a + b * b)
    out = rle(S.c(Fraction('1e-13')), r)
    gx = al * (one_ - s_div(a, r)); mx = al * (one_ - s_div(b, r))
    f0 = tuple(facts) + (out,) + tuple(nonan(a)) + tuple(nonan(b))
    pos = (rlt(Z, a), rlt(Z, b))
    g.sca('%s: d phi/da, both positive' % what, f0 + pos, gam, gx + (one_ - al) * b)
    g.sca('%s: d phi/db, both positive' % what, f0 + pos, mu, mx + (one_ - al) * a)
    for t, c in (('a<0', rlt(a, Z)), ('b<0', rlt(b, Z))):
        g.sca('%s: d phi/da, %s' % (what, t), f0 + (c,), gam, gx)
        g.sca('%s: d phi/db, %s' % (what, t), f0 + (c,), mu, mx)
    for t, c, v, e, o in (('a=0', (req(a, Z), rle(Z, b)), gam, gx, b), ('a=0', (req(a, Z), rle(Z, b)), mu, mx, Z), ('b=0', (req(b, Z), rle(Z, a)), mu, mx, a), ('b=0', (req(b, Z), rle(Z, a)), gam, gx, Z)):
        g.fact('%s: generalized derivative at %s' % (what, t), f0 + c, band(rle(Z, v - e), rle(v - e, (one_ - al) * o)))
    f1 = tuple(facts) + (bnot(out),) + tuple(nonan(a)) + tuple(nonan(b))
    p, q = gam * s_inv(al) - one_, mu * s_inv(al) - one_
    g.fact('%s: element of the generalized gradient near the origin' % what, f1, rle(p * p + q * q, S.c(1) + S.c(Fraction('1e-12'))))

def grad_sign(g, facts, gam, d, a, b, al, sg, what):
    """signs: near the origin from the code, elsewhere from the derivatives established by grad_lemma"""
    Z = S.c(0); one_ = S.c(1); f0 = tuple(facts) + tuple(nonan(a)) + tuple(nonan(b))
    mu = d - sg * gam
    r = s_sqrt(a * a + b * b); out = rle(S.c(Fraction('1e-13')), r)
    near = f0 + (bnot(out),)
    g.fact('%s: gamma >= 0 near the origin' % what, near, rle(Z, gam))
    g.fact('%s: mu >= 0 near the origin' % what, near, rle(Z, mu))
    g.fact('%s: gamma > 0 or mu > 0 near the origin' % what, near, bor(rlt(Z, gam), rlt(Z, mu)))
    # elsewhere, over symbols: a point (A,B), its norm, and derivatives (g,m) as established
    A, Bq, Rr, G, M = (S.sym('lemma.' + k) for k in ('a', 'b', 'r', 'g', 'm'))
    I = s_inv(Rr)
    base = (rlt(Z, al), rlt(al, one_), rlt(Z, sg), rle(S.c(Fraction('1e-13')), Rr), req(Rr * Rr, A * A + Bq * Bq)) + tuple(bnot(isnan(x)) for x in (A, Bq, Rr, G, M, al, sg))
    # |A| <= R and |B| <= R, and what follows for A/R and B/R
    for x, t in ((A, 'a'), (Bq, 'b')):
        g.fact('%s lemma: |%s| <= r' % (what, t), base, band(rle(x, Rr), rle(-x, Rr)))
    u, v = S.sym('lemma.u'), S.sym('lemma.v')      # a/r, b/r
    g.fact('%s lemma: a/r <= 1 when a <= r' % what, base + (rle(A, Rr), req(u * Rr, A), bnot(isnan(u))), rle(u, one_))
    g.fact('%s lemma: a/r <= 0 when a <= 0' % what, base + (rle(A, Z), req(u * Rr, A), bnot(isnan(u))), rle(u, Z))
    ab = (rlt(Z, al), rlt(al, one_), rlt(Z, sg), rle(u, one_), rle(v, one_)) + tuple(bnot(isnan(x)) for x in (A, Bq, u, v, G, M, al, sg))
    gx, mx = al * (one_ - u), al * (one_ - v)
    reg = (('a,b>0', (rlt(Z, A), rlt(Z, Bq), req(G, gx + (one_ - al) * Bq), req(M, mx + (one_ - al) * A))),
           ('a<0', (rlt(A, Z), rle(u, Z), req(G, gx), req(M, mx))), ('b<0', (rlt(Bq, Z), rle(v, Z), req(G, gx), req(M, mx))),
           ('a=0', (req(A, Z), req(u, Z), rle(Z, Bq), rle(gx, G), req(M, mx))), ('b=0', (req(Bq, Z), req(v, Z), rle(Z, A), rle(mx, M), req(G, gx))))
    for t, c in reg:
        g.fact('%s: gamma >= 0, %s' % (what, t), ab + c, rle(Z, G))
        g.fact('%s: mu >= 0, %s' % (what, t), ab + c, rle(Z, M))
        h = (bnot(isnan(G)), bnot(isnan(M)), rlt(Z, sg), rle(Z, G), rle(Z, M), bnot(isnan(sg)))
        g.fact('%s: gamma > 0 or mu > 0, %s' % (what, t), ab + c, bor(rlt(Z, G), rlt(Z, M)))
    g.fact('%s: mu + sigma*gamma > 0' % what, h + (bor(rlt(Z, G), rlt(Z, M)),), rlt(Z, M + sg * G))

# ---------------------------------------------------------------- dense
class NewtonWorld:
    def __init__(s, g, kind):
        ex = s.ex = g.ex; st = s.st = St()
        s.al, s.sg = S.sym('alpha'), S.sym('sigma')
        if kind == 'dense':
            D = s.D = Dense(ex, st, (1, 0, 1)); s.key, s.dims = DENSE, (D.nz, D.nl, D.nv)
        else:
            D = s.D = Mpc(ex, st); mpc_contracts(ex, D); s.key, s.dims = RICC, (D.N, D.nx, D.nu, D.nc)
            D.b, D.A = vletter('b', D.nv), mletter('A', D.nv, D.nz)
        s.x = full_variable(ex, st, ('x',), D, 'x'); s.w = full_variable(ex, st, ('w',), D, 'w'); full_variable(ex, st, ('dx',), D, 'stale:dx')
        for c in (rlt(0, s.al), rlt(s.al, 1), rlt(0, s.sg)): st.assume(c)
        component(ex, st, R, ('r',), (D.nz, D.nl, D.nv), D.addr, s.al, 'r')
        s.r = [vletter('r.' + k, n) for k, n in zip('zlv', (D.nz, D.nl, D.nv))]
        for k, m in zip('zlv', s.r): set_content(ex, st, ('r',), k, m)
        component(ex, st, s.key, ('ls',), s.dims, D.addr, s.al, 'ls')
        s.bx = {acc(ex, st, ('dx',), k).buf for k in 'zlvy'}
    def init(s, g):
        """states after a successful Initialize"""
        n = 0
        for s2, o in call(s.ex, s.st, ('ls',), 'Initialize', [OL(('x',)), OL(('w',)), s.sg]):
            if o[0] == 'throw': g.fact('Initialize does not throw on valid arguments', s2.facts, FALSE); continue
            d = [k for k in changed(s.st, s2, ()) if k[:1] != ('ls',)]
            g.goal('Initialize changes nothing but the solver', not d, str(d))
            kept(s.ex, s.st, s2, ('ls',), 'Initialize'); facts_free(g, 'Initialize', s2, s.st.facts)
            v = s.ex.load(s2, o[1])
            v = s.ex.tobool(v)
            s3 = s2.copy()
            if v is FALSE: continue
            if v is not TRUE:
                s3.assume(v)
                if not smt.feasible(s3.facts): continue
            n += 1
            yield s3
        g.goal('Initialize can succeed', n > 0)
    def solve(s, g, s2):
        n = 0
        for s3, o in call(s.ex, s2, ('ls',), 'Solve', [OL(('r',)), Ptr(('dx',))]):
            if o[0] == 'throw': g.fact('Solve does not throw on valid arguments', s3.facts, FALSE); continue
            d = [k for k in changed(s2, s3, s.bx) if k[:1] not in (('ls',), ('dx',))]
            g.goal('Solve changes nothing but the step and its workspace', not d, str(d))
            kept(s.ex, s2, s3, ('ls',), 'Solve'); kept(s.ex, s2, s3, ('dx',), 'Solve'); facts_free(g, 'Solve', s3, s2.facts)
            v = s.ex.tobool(s.ex.load(s3, o[1]))
            if v is not TRUE:
                g.goal('Solve succeeds after a successful Initialize', 'no' if v is FALSE else 'unknown', repr(v))
                if v is FALSE: continue
                s3 = s3.copy(); s3.assume(v)
            n += 1
            yield s3
        g.goal('Solve returns', n > 0)

def gradient_at(W, s1, gam, d):
    """expanded gradient entry $j and its evaluation point"""
    el = lambda m: m_elem(m, PJ)
    a = el(W.x[3]) + W.sg * (el(W.x[2]) - el(W.w[2])); b = el(W.x[2])
    return expand(W.ex, s1, gam), expand(W.ex, s1, d), a, b

def ok_known(st, okf):
    if okf in st.facts: return True
    return smt.prove(st.facts, okf)

def dense_newton(g):
    def run():
        W = NewtonWorld(g, 'dense'); D, ex, sg = W.D, W.ex, W.sg
        rz, rl, rv = W.r
        for s2 in W.init(g):
            for s3 in W.solve(g, s2):
                dz, dl, dv, dy = (unfold(s3, content(ex, s3, ('dx',), k)) for k in 'zlvy')
                for k, m in zip('zlvy', (dz, dl, dv, dy)): stale_free(g, 'step %s' % k, m)
                g.vec('the margin of the step is b - A dz', s3, dy, D.b - D.A * dz)
                facts = s3.facts + (ile(0, PJ), ilt(PJ, D.nv))
                def third(ga, d):
                    ga, d = unfold(s3, ga), unfold(s3, d)
                    q = Denominator(d, D.nv)
                    return not (-(diag_from_body(ga, D.nv) * D.A * q.M(dz)) + diag_from_body(q.el(), D.nv) * q.M(dv) - rv).t
                pair = find_gradient(g, ex, s2, ('ls',), D.nv, third)
                g.goal('-C A dz + D dv = rv', 'yes' if pair else 'no', 'no stored pair (gamma, d) satisfies the third block row; dv = %r' % (dv,))
                if pair is None: continue
                ga, d = pair
                G_, D_, a, b = gradient_at(W, s2, ga, d)
                stale_free(g, 'the gradient', G_); stale_free(g, 'the gradient', D_)
                grad_lemma(g, W.st.facts, G_, D_ - sg * G_, a, b, W.al, sg, 'gradient')
                grad_sign(g, W.st.facts, G_, D_, a, b, W.al, sg, 'gradient')
                # linear algebra
                zeros = []; den = Denominator(unfold(s3, d), D.nv); empty = False
                for df in s3.defs:
                    if df.kind == 'chol': g.goal('only successful factorizations are used', 'yes' if ok_known(s3, df.data[2]) else 'no', repr(df.data[2]))
                    if df.kind != 'ldlt': continue
                    base, kb, kreg, rb, rreg, okf = df.data
                    g.goal('only successful factorizations are used', 'yes' if okf is not None and ok_known(s3, okf) else 'no', repr(okf))
                    sol = Mat.letter(mk_b(base))
                    nz, nl = D.nz, D.nl
                    blk = lambda r0, c0, n, m: unfold(s3, kb.read(s3.facts, Region(None, kreg.r0 + r0, kreg.c0 + c0, n, m, kreg.ld)))
                    K00, K10, K11 = blk(P.c(0), P.c(0), nz, nz), blk(nz, P.c(0), nl, nz), blk(nz, nz, nl, nl)
                    if smt.prove(s3.facts, ieq(nl, 0)): empty, K10, K11 = True, Mat.zero(nl, nz), Mat.zero(nl, nl)
                    for k, nm in ((K00, 'first'), (K11, 'second')):
                        g.goal('the %s diagonal block is symmetric' % nm, 'yes' if k.T().t == k.t else 'unknown', repr(k))
                    for k in (K00, K10, K11): stale_free(g, 'the factorized matrix', k)
                    s0, s1 = m_block(sol, P.c(0), 0, nz, 1), m_block(sol, nz, 0, nl, 1)
                    rhs = lambda r0, n: unfold(s3, rb.read(s3.facts, Region(None, rreg.r0 + r0, rreg.c0, n, 1, rreg.ld)))
                    zeros += [K00 * s0 + K10.T() * s1 - rhs(P.c(0), nz), K10 * s0 + K11 * s1 - rhs(nz, nl)]
                e1 = D.H * dz + dz.scale(sg) + D.G.T() * dl + D.A.T() * dv - rz
                e2 = -(D.G * dz) + dl.scale(sg) - rl
                if empty: e1, e2 = e1 - D.G.T() * dl, e2 - e2      # no equality rows on this path
                for nm, e in (("(H+sigma I)dz + G'dl + A'dv = rz", e1), ('-G dz + sigma dl = rl', e2)):
                    e = den.M(unfold(s3, e))
                    r = certify(e, [den.M(z) for z in zeros])
                    g.goal(nm, 'yes' if r is True else 'no', '' if r is True else 'remainder %s' % str(list(r)[:40]))
    g.sub('DenseCholeskySolver', run)

# ---------------------------------------------------------------- Riccati
class Resolver:
    """replaces snapshots of stacked or per-stage vectors by the value of one stage, under the facts of a case"""
    def __init__(s, st, facts, stage, widths):
        s.st, s.facts, s.stage = st, facts, stage
        s.whole = {d.data[0].name: d for d in st.defs if d.kind == 'snap' and not d.binders}
        s.per = {d.data[0].name: d for d in st.defs if d.kind == 'snap' and len(d.binders) == 1}
        s.widths = widths; s.cache = {}; s.depth = 0
    def block(s, b, off, n):
        """n entries of the whole snapshot b starting at off"""
        key = (b, off, n)
        if key in s.cache: return s.cache[key]
        r = None
        _, buf, reg = s.whole[b.name].data
        if reg.idx is None and not reg.off().t:
            for k in s.stages():
                for wd in s.widths:
                    o = off - k * wd
                    if len(o.syms() - {'nx', 'nu', 'nc'}): continue
                    try: r = buf.read(s.facts, Region(None, o, k, n, 1, wd)); break
                    except (PartialRead, Unsupported): continue
                if r is not None: break
        if r is not None: r = s.M(unfold(s.st, r))
        s.cache[key] = r
        return r
    def stages(s): return (s.stage, s.stage + 1, s.stage - 1)
    def f(s, b):
        """value of a per-stage snapshot"""
        if b in s.cache: return s.cache[b]
        d = s.per.get(b.name); r = None
        if d is not None and len(b.idx) == 1:
            (I, lo, hi), = d.binders
            _, buf, reg = d.data
            reg = reg.subst({I: b.idx[0]}); buf = subst_any(buf, {I: b.idx[0]})
            if reg.rows.const() is None or reg.rows.const() > 2:
                try: r = s.M(unfold(s.st, buf.read(s.facts, reg)))
                except (PartialRead, Unsupported): r = None
        s.cache[b] = r
        return r
    def S(s, x):
        def g(a):
            if a.kind == 'elem' and len(a.args[0]) == 1 and a.args[0][0][0] == 'b' and a.args[0][0][1].name in s.whole:
                l = a.args[0][0]; o = l[2] + a.args[1]
                q = o.coeff_of(J)
                if q is None or q[0].const() != 1: return None
                for n in s.widths:
                    v = s.block(l[1], q[1], n)
                    if v is not None: return m_elem(v, PJ)
            return None
        return x.map_atoms(g)
    def M(s, m):
        if s.depth > 20: raise Unsupported('snapshot nesting')
        s.depth += 1
        try:
            out = Mat(m.rows, m.cols, {}, m.valid, m.risk)
            for w_, c in m.t.items():
                l = w_[-1] if w_ else None
                v = None
                if l is not None and l[0] == 'b' and l[1].name in s.whole and l[4].const() == 1: v = s.block(l[1], l[2], l[3])
                if v is not None:
                    pre = Mat(m.rows, l[3], {w_[:-1]: S.c(1)}) if len(w_) > 1 else None
                    out = out + (v if pre is None else pre * v).scale(c)
                else: out = out + Mat(m.rows, m.cols, {w_: c})
            out = map_scal(out, s.S)
            return rw_mat(out, s.f)
        finally: s.depth -= 1

def inst_defs(st, s_facts, stages):
    """definitions instantiated at stage indices that are provably in range"""
    out = []
    for d in st.defs:
        if d.kind not in ('chol', 'rec', 'base'): continue
        if not d.binders: out.append((d.kind, d.data, st.qfacts)); continue
        if len(d.binders) != 1: continue
        I, lo, hi = d.binders[0]
        seen = set()
        for k in stages:
            if k in seen: continue
            seen.add(k)
            if not smt.prove(s_facts, band(ile(lo, k), ilt(k, hi))): continue
            out.append((d.kind, subst_any(d.data, {I: k}), None))
    return out

def riccati_newton(g):
    def run():
        W = NewtonWorld(g, 'mpc'); D, ex, sg = W.D, W.ex, W.sg
        N, nx, nu, nc = D.N, D.nx, D.nu, D.nc; w = nx + nu
        i = P.sym('i')
        for s2 in W.init(g):
            for s3 in W.solve(g, s2):
                V = {k: acc(ex, s3, ('dx',), k) for k in 'zlvy'}
                def rd(facts, k, off, stage, n, wd): return unfold(s3, s3.bufs[V[k].buf].read(facts, Region(None, off, stage, n, 1, wd)))
                Z0 = P.c(0)
                def parts(facts, stage, sub):
                    rs = Resolver(s3, facts, stage, (nc, nx, nu))
                    f = lambda k, off, n, wd: rs.M(rd(facts, k, off, stage, n, wd)).subst_i(sub)
                    return dict(x=f('z', Z0, nx, w), u=f('z', nx, nu, w), l=f('l', Z0, nx, nx), v=f('v', Z0, nc, nc), y=f('y', Z0, nc, nc))
                rv_ = W.r
                def rhs(stage):
                    return dict(x=m_block(rv_[0], stage * w, 0, nx, 1), u=m_block(rv_[0], stage * w + nx, 0, nu, 1), l=m_block(rv_[1], stage * nx, 0, nx, 1), v=m_block(rv_[2], stage * nc, 0, nc, 1))
                one_ = P.c(1)
                # third block row and the gradient, at any stage
                f0 = s3.facts + (ile(Z0, i), ile(i, N))
                def at(e, st_): return unfold(s3, e).subst_i({J: PJ + st_ * nc})
                cases = [('i=0, N=1', {'N': one_, 'i': Z0}, ()), ('i=0, N>1', {'i': Z0}, (ile(2, N),)), ('0<i<N-1', {}, (ile(1, i), ile(i, N - 2))),
                         ('i=N-1>0', {'i': N - 1}, (ile(2, N),)), ('i=N', {'i': N}, ())]
                pairs = None
                for ctag, sub, fs in cases:
                    facts = tuple(f.subst_i(sub) for f in s3.facts) + fs
                    if not smt.feasible(facts): g.goal('case %s is possible' % ctag, 'no'); continue
                    st_ = i.subst(sub); Nc = N.subst(sub)
                    S_ = lambda m: m.subst_i(sub)
                    # reading uses the unsubstituted buffers under equalities
                    eqs = tuple(ieq(P.sym(k), v) for k, v in sub.items())
                    rf = s3.facts + fs + eqs + (ile(Z0, i), ile(i, N))
                    here = parts(rf, st_, sub)
                    rsl = Resolver(s3, rf, st_, (nc, nx, nu))
                    res_ = lambda m: rsl.M(unfold(s3, m)).subst_i(sub)
                    last = ctag == 'i=N'
                    nxt = parts(rf, st_ + 1, sub) if not last else None
                    r0 = {k: S_(m) for k, m in rhs(st_).items()}; r1 = {k: S_(m) for k, m in rhs(st_ + 1).items()} if not last else None
                    for k, m in here.items(): stale_free(g, '%s: step %s' % (ctag, k), m)
                    E, Lm = S_(D.m('E', st_)), S_(D.m('L', st_))
                    Adz = E * here['x'] + Lm * here['u']
                    g.mat('%s: the margin of the step is b - A dz' % ctag, facts, here['y'], -S_(D.m('d', st_)) - Adz)
                    def third(ga, d):
                        ga, d = at(ga, st_).subst_i(sub), at(d, st_).subst_i(sub)
                        q = Denominator(d, nc)
                        if DBG: print('THIRD', str(ga)[:200], '|', str(d)[:200], '|', q.tab, str(-(diag_from_body(ga, nc) * Adz) + diag_from_body(q.el(), nc) * q.M(here['v']) - r0['v'])[:1500])
                        return not (-(diag_from_body(ga, nc) * q.M(Adz)) + diag_from_body(q.el(), nc) * q.M(here['v']) - r0['v']).t
                    pair = find_gradient(g, ex, s2, ('ls',), D.nv, third)
                    g.goal('%s: -C A dz + D dv = rv' % ctag, 'yes' if pair else 'no', 'no stored pair (gamma, d) satisfies the third block row; dv = %r' % (here['v'],))
                    if pair is None: continue
                    if pairs is None: pairs = pair
                    elif pairs != pair: g.goal('the same gradient is used at every stage', 'no', repr((pairs, pair)))
                    den = Denominator(at(pair[1], st_).subst_i(sub), nc)
                    # linear algebra
                    zeros = []
                    stages = [st_, st_ - 1, st_ + 1, Z0, Nc - 1, Nc]
                    insts = inst_defs(s3, rf, stages)
                    given = {}
                    for kind, data, _ in insts:
                        if kind == 'base' and isinstance(data[0], Mat) and data[0].cols.const() != 1:
                            (lw, _c), = S_(data[0]).t.items()
                            given[lw[0][1]] = res_(data[1]).with_(valid='full')
                    gv = (lambda m: rw_mat(m, given.get)) if given else (lambda m: m)
                    lets = {}
                    vecs = [m for q in (here, nxt) if q for k, m in q.items() if k in 'xul']
                    for kind, data, _ in insts:
                        if kind == 'chol':
                            base, K, ok = data
                            F = S_(Mat.letter(mk_b(base))); K = res_(K)
                            okc = ok.subst_i(sub)
                            if not ok_holds(s3, rf, okc): g.goal('%s: only successful factorizations are used' % ctag, 'no', repr(ok)); continue
                            stale_free(g, '%s: factorized matrix' % ctag, K)
                            for m in vecs:
                                if K.cols is m.rows or smt.prove(facts, ieq(K.cols, m.rows)): zeros.append((F * F.T() - K) * m); lets.setdefault(F, None)
                        else:
                            a_, b_ = data[0], data[1]
                            if not isinstance(a_, Mat):
                                continue
                            vb = res_(b_); z = S_(a_) - vb
                            if a_.cols.const() == 1: zeros += [z, z.scale(sg)]; lets[S_(a_)] = vb
                    # products of factors with the defining equations of the letters
                    for a_, v_ in list(lets.items()):
                        if v_ is None: continue
                        for F, q in list(lets.items()):
                            if q is None and smt.prove(facts, ieq(F.cols, a_.rows)): 
                                zeros.append(F * F.T() * (a_ - v_)); zeros.append(m_inv(F.T()) * m_inv(F) * (a_ - v_))
                    zeros = [map_scal(den.M(gv(z)), sq_reduce) for z in zeros]
                    Qm, Rm, Sm = (S_(D.m(k, st_)) for k in 'QRS')
                    gz = {'x': (Qm * here['x'] + Sm.T() * here['u'] + here['x'].scale(sg) - here['l'] + E.T() * here['v']),
                          'u': (Sm * here['x'] + Rm * here['u'] + here['u'].scale(sg) + Lm.T() * here['v'])}
                    if not last:
                        A_, B_ = S_(D.m('A', st_)), S_(D.m('B', st_))
                        gz['x'] = gz['x'] + A_.T() * nxt['l']; gz['u'] = gz['u'] + B_.T() * nxt['l']
                        gl = -(A_ * here['x'] + B_ * here['u'] - nxt['x']) + nxt['l'].scale(sg) - r1['l']
                    goals = [("(H+sigma I)dz + G'dl + A'dv = rz, %s part" % k, gz[k] - r0[k]) for k in 'xu']
                    if not last: goals.append(('-G dz + sigma dl = rl, stage i+1', gl))
                    if st_.const() == 0: goals.append(('-G dz + sigma dl = rl, initial stage', here['x'] + here['l'].scale(sg) - r0['l']))
                    for nm, e in goals:
                        r = certify(map_scal(den.M(gv(unfold(s3, e))), sq_reduce), zeros)
                        g.goal('%s: %s' % (ctag, nm), 'yes' if r is True else 'no', '' if r is True else 'remainder (%d) %s' % (len(r), str(list(r)[:40])))
                if pairs:
                    G_, D_, a, b = gradient_at(W, s2, *pairs)
                    stale_free(g, 'the gradient', G_); stale_free(g, 'the gradient', D_)
                    grad_lemma(g, W.st.facts, G_, D_ - sg * G_, a, b, W.al, sg, 'gradient')
                    grad_sign(g, W.st.facts, G_, D_, a, b, W.al, sg, 'gradient')
    g.sub('RiccatiLinearSolver', run)

def ok_holds(st, facts, okf):
    if okf in facts: return True
    for I, lo, hi, f in st.qfacts:
        if f.k != 'okflag' or okf.k != 'okflag' or f.a[0] != okf.a[0]: continue
        if len(f.a[1]) != 1: continue
        # f(I) for lo <= I < hi
        q = f.a[1][0]
        k = okf.a[1][0] - q + P.sym(I)
        if smt.prove(facts, band(ile(lo, k), ilt(k, hi))): return True
    return smt.prove(facts, okf)
