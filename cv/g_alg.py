"""The outer and inner loops of FBstabAlgorithm, checked against the contracts of the components.

Iterates are represented by the contents of their four vectors (exact algebra over letters), residuals by terms
PNR(z,l,v,y; alpha) / IR(z,l,v,y; zbar,lbar,vbar; sigma; alpha), Newton steps by fresh letters that are functions of the Newton
system.  Ghost cells record the documented course of the method (current centre, line search, merits, counts); every call of a
component is an event at which the ghost state is compared with the arguments.  Loops are cut by invariants found by
anti-unification of the entry and back-edge states plus a Houdini set of inequalities; every invariant is checked inductive before
it is used."""
from .check import *
from .exec import Infeasible, same_buf

V, R, F = 'fbstab::FullVariable', 'fbstab::FullResidual', 'fbstab::FullFeasibility'
G = 'ghost'

class Term(Val):
    def __init__(s, kind, args): s.kind, s.args = kind, tuple(args)
    def key(s): return (s.kind, s.args)
    def __repr__(s): return '%s%r' % (s.kind, s.args)
class Bot(Val):
    """undefined ghost value"""
    def key(s): return ()
    def __repr__(s): return 'undef'
BOT = Bot()
POL = 'display'

# ---------------------------------------------------------------- interned scalar functions of terms
INTERN = {}; BYKEY = {}
def tainted(x):
    if isinstance(x, Term): return any(tainted(a) for a in x.args)
    if isinstance(x, str): return x.startswith('stale:')
    if isinstance(x, (tuple, list)): return any(tainted(a) for a in x)
    if isinstance(x, Mat):
        return any(b.name.startswith('stale:') or 'stale' in b.attr for b in x.bases()) or any(tainted(c) for c in x.t.values()) or word_taint(x)
    if isinstance(x, (S, B, P)): return any(n.startswith('stale:') for n in syms(x))
    return False
def word_taint(m):
    return any(n.startswith('stale:') for w in m.t for n in wsyms(w))
def app(kind, *args):
    """the scalar kind(args)"""
    k = (kind, args); n = BYKEY.get(k)
    if n is None:
        n = '%s%s@%d' % ('stale:' if tainted(args) else '', kind, len(BYKEY))
        BYKEY[k] = n; INTERN[n] = k
    return S.sym(n)
def iapp(kind, *args):
    k = ('i:' + kind, args); n = BYKEY.get(k)
    if n is None:
        n = '%s%s@%d' % ('stale:' if tainted(args) else '', kind, len(BYKEY))
        BYKEY[k] = n; INTERN[n] = k
    return P.sym(n)

def interned(x):
    """(kind, args) if the scalar is a single interned symbol"""
    if len(x.t) != 1: return None
    (m, c), = x.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'sym': return None
    return INTERN.get(m[0][0].args[0])

def nonneg_fact(m):
    """formula: every entry of the vector is nonnegative (sufficient)"""
    if not m.t: return TRUE
    if len(m.t) == 1:
        (w, c), = m.t.items()
        if c is S.c(1) and len(w) == 1 and w[0][0] == 'e':
            b = w[0][1]
            if smt.prove(nonan(b), rle(0, b), 1000): return TRUE
            return FALSE
        if c is S.c(1) and len(w) == 1 and w[0][0] == 'b': return bsym('nn:' + w[0][1].name)
    return FALSE

class Gen:
    """anti-unification of two values; fresh symbols are shared by equal pairs"""
    n = 0
    def __init__(s, tag): s.pairs = {}; s.tag = tag; s.ident = set()
    def fresh(s, what, a, b):
        Gen.n += 1
        return '%s%s~%d' % ('stale:' if tainted(a) or tainted(b) else '', what, Gen.n)
    def pair(s, typ, a, b, mk):
        k = (typ, a, b)
        if k not in s.pairs: s.pairs[k] = mk()
        return s.pairs[k]
    def gen(s, a, b, what='h'):
        if a is b or (type(a) is type(b) and a == b):
            s.ident |= free(a); return a
        if isinstance(a, S) or isinstance(b, S):
            if isinstance(a, P): a = S.ofP(a)
            if isinstance(b, P): b = S.ofP(b)
            if not (isinstance(a, S) and isinstance(b, S)): raise Unsupported('join of %r and %r' % (a, b))
            x, y = interned(a), interned(b)
            if x and y and x[0] == y[0] and len(x[1]) == len(y[1]) and not x[0].startswith('i:'):
                return app(x[0], *[s.gen(p, q, what) for p, q in zip(x[1], y[1])])
            return s.pair('S', a, b, lambda: S.sym(s.fresh(what, a, b)))
        if isinstance(a, P) and isinstance(b, P): return s.pair('P', a, b, lambda: P.sym(s.fresh(what, a, b)))
        if isinstance(a, B) and isinstance(b, B): return s.pair('B', a, b, lambda: bsym(s.fresh(what, a, b)))
        if isinstance(a, Mat) and isinstance(b, Mat): return s.mat(a, b, what)
        if isinstance(a, Term) and isinstance(b, Term) and a.kind == b.kind and a.kind[:5] != 'stale' and len(a.args) == len(b.args):
            return Term(a.kind, [s.gen(x, y, what) for x, y in zip(a.args, b.args)])
        if isinstance(a, Bot) and isinstance(b, Term): return Term(b.kind, [s.bot(x, what) for x in b.args])
        if isinstance(b, Bot): return a
        if isinstance(a, Bot) and isinstance(b, Mat): return s.bot(b, what)
        if isinstance(a, Term) or isinstance(b, Term): return s.pair('T', a, b, lambda: Term('stale:any', (s.fresh(what, a, b),)))
        if isinstance(a, Opaque) and isinstance(b, Opaque): return Opaque('?')
        raise Unsupported('join of %s and %s' % (type(a).__name__, type(b).__name__))
    def bot(s, b, what):
        """the first value is undefined: any symbol whose second value is b will do"""
        c = [v for (t, x, y), v in s.pairs.items() if y == b and type(v) is type(b)]
        if c: return c[0]
        if isinstance(b, Mat):
            m = s.marg(b)
            if m is not None:
                g = s.bot(m, what); return s.ctx.b - s.ctx.A * g
            return s.pair('M', BOT, b, lambda: Mat.letter(mk_b(Base(s.fresh(what, b, b), b.rows, b.cols))))
        if isinstance(b, S): return s.pair('S', BOT, b, lambda: S.sym(s.fresh(what, b, b)))
        if isinstance(b, P): return s.pair('P', BOT, b, lambda: P.sym(s.fresh(what, b, b)))
        if isinstance(b, B): return s.pair('B', BOT, b, lambda: bsym(s.fresh(what, b, b)))
        if isinstance(b, Term): return Term(b.kind, [s.bot(x, what) for x in b.args])
        return b
    def mat(s, a, b, what):
        if a.rows is not b.rows or a.cols is not b.cols: raise Unsupported('join of matrices of different sizes')
        x, y = s.marg(a), s.marg(b)
        if x is not None and y is not None: return s.ctx.b - s.ctx.A * s.gen(x, y, what)
        return s.pair('M', a, b, lambda: Mat.letter(mk_b(Base(s.fresh(what, a, b), a.rows, a.cols))))
    def marg(s, y):
        """m if y == b - A m"""
        d = s.ctx.b - y; A = next(iter(s.ctx.A.t))[0]; out = None
        if not d.t: return None
        for w, c in d.t.items():
            if len(w) < 2 or w[0] != A: return None
            m = Mat(s.ctx.nz, d.cols, {tuple(w[1:]): c})
            out = m if out is None else out + m
        if out is None: return None
        return out if (s.ctx.A * out) == d else None

# ---------------------------------------------------------------- the world of one solver
class World:
    def __init__(w, g, algcls, solve, frozen_sizes=True):
        w.g = g; w.ex = ex = g.ex; w.alg_cls = algcls; w.solve = solve
        w.st = st = St(); w.notes = []
        D = w.D = Abs(ex, st); Gen.ctx = D
        w.lin_cls = next(c for c in (a.strip() for a in re.search(r'<(.*)>', algcls).group(1).split(',')) if 'Solver' in c)
        w.data_cls = solve.params_types[0] if hasattr(solve, 'params_types') else None
        w.vars = [('x%d' % i,) for i in range(1, 5)]; w.res = [('r1',), ('r2',)]; w.lin = ('lin',); w.feas = ('feas',)
        w.con = {}
        for i, a in enumerate(w.vars):
            before = set(st.bufs)
            newobj(ex, st, a, V, (D.nz, D.nl, D.nv)); havoc_obj(ex, st, a, before, a[0])
            w.con[a] = {}
            for nm, n in zip('zlvy', (D.nz, D.nl, D.nv, D.nv)):
                v = acc(ex, st, a, nm); w.con[a][nm] = v.buf
                st.bufs[v.buf] = Buf(st.bufs[v.buf].name, vletter('stale:%s.%s' % (a[0], nm), n, {'stale'}))
            st.cells[(G, 'data', a)] = Str('unlinked')
        for a in w.res:
            newobj(ex, st, a, R, (D.nz, D.nl, D.nv)); w.ghost_comp(st, a)
        for a, c in ((w.lin, w.lin_cls), (w.feas, F)):
            st.cls[a] = c; w.ghost_comp(st, a)
        w.alg = ('alg',)
        ctor = next(f for f in (ex.p.fns[m] for ms in ex.p.cls[algcls].methods.values() for m in ms) if f.kind == 'CXXConstructorDecl' and len(f.params) == 8 and f.body is not None)
        construct_f(ex, st, w.alg, ctor, [Ptr(a) for a in w.vars + w.res] + [Ptr(w.lin), Ptr(w.feas)])
        w.options(); w.stale_members(); w.arguments(); w.ghosts()

    def ghost_comp(w, st, a):
        st.cells[(G, 'term', a)] = Term('stale:init', ('stale:' + a[0],)); st.cells[(G, 'data', a)] = Str('unlinked')
        st.cells[(G, 'alpha', a)] = S.sym('stale:alpha.' + a[0])

    def options(w):
        """options in effect: anything ValidateOptions produces (C09)"""
        st, ex = w.st, w.ex
        oa = [k for k, c in st.cls.items() if c == 'fbstab::AlgorithmParameters' and k[:1] == w.alg]
        if len(oa) != 1: raise Unsupported('options member')
        w.opt = oa[0]; w.o = {}
        for k in list(st.cells):
            if k[:len(w.opt)] != w.opt or len(k) != len(w.opt) + 1: continue
            nm = k[-1]; v = st.cells[k]
            if isinstance(v, S): st.cells[k] = S.sym('o.' + nm); st.assume(bnot(isnan(st.cells[k])))
            elif isinstance(v, B): st.cells[k] = bsym('o.' + nm)
            elif isinstance(v, P): st.cells[k] = P.sym('o.' + nm)
            w.o[nm] = st.cells[k]
        o = w.o
        for nm, lo, hi in RANGES:
            if nm not in o: raise Unsupported('option ' + nm)
            if isinstance(o[nm], P): st.assume(ile(lo, o[nm]))
            else:
                st.assume(rle(S.c(Fraction(repr(lo))), o[nm]))
                if hi is not None: st.assume(rle(o[nm], S.c(Fraction(repr(hi)))))
        st.assume(rle(o['inner_tol_min'], o['inner_tol_max'])); st.assume(rle(o['sigma_min'], o['sigma0'])); st.assume(rle(o['sigma0'], o['sigma_max']))
        d = o[POL + '_level']
        st.assume(ile(0, d)); st.assume(ile(d, 3))
        w.opt_cells = {k: v for k, v in st.cells.items() if k[:len(w.opt)] == w.opt}

    def stale_members(w):
        st = w.st
        for k in list(st.cells):
            if k[:1] != w.alg or k[:len(w.opt)] == w.opt: continue
            v = st.cells[k]; nm = 'stale:alg.' + '.'.join(map(str, k[1:]))
            if isinstance(v, P): st.cells[k] = P.sym(nm)
            elif isinstance(v, S): st.cells[k] = S.sym(nm)
            elif isinstance(v, B): st.cells[k] = bsym(nm)
            elif isinstance(v, DV): st.bufs[k] = Buf(st.bufs[k].name, vletter(nm, v.size, {'stale'}))

    def arguments(w):
        st, ex, D = w.st, w.ex, w.D
        w.guess = {}; w.io = {}; w.argbuf = {}
        fs = enumerators(ex, 'FeasibilityStatus'); w.status = fs; w.FEASIBLE = fs['FEASIBLE']
        for k in ('DUAL_INFEASIBLE', 'PRIMAL_INFEASIBLE', 'BOTH'): fs[k]
        w.ismap = 'Map' in w.solve.type
        for nm, n in zip('zlvy', (D.nz, D.nl, D.nv, D.nv)):
            a = ('arg', nm); m = vletter(('stale:' if nm == 'y' else '') + 'g.' + nm, n)
            w.io[nm] = a; w.argbuf[nm] = a
            if w.ismap:
                q = w.argbuf[nm] = ('argbuf', nm); st.bufs[q] = Buf(nm, m); st.cells[a] = View(q, Region(None, 0, 0, n, 1, n))
            else: vec_obj(ex, st, a, n, m)
            w.guess[nm] = m
        w.os = ('os',); st.cls[w.os] = w.os_cls = next(k for k in ex.p.cls if k.endswith('VStream'))
        m = w.guess
        w.guess_pt = Term('vec', (m['z'], m['l'], m['v'], D.b - D.A * m['z']))

    def ghosts(w):
        c = w.st.cells
        for nm in ('gnewton', 'gprox', 'ginner', 'gj'): c[(G, nm)] = P.c(0)
        c[(G, 'gt')] = S.c(1); c[(G, 'gacc')] = FALSE; c[(G, 'mode')] = Str('idle'); c[(G, 'closing')] = FALSE
        for nm in ('cur', 'X', 'D', 'res', 'last', 'mcur', 'factored', 'shown'): c[(G, nm)] = BOT
        c[(G, 'C')] = w.guess_pt; c[(G, 'sub')] = Str('none'); c[(G, 'failed')] = FALSE
        for i in range(5): c[(G, 'hist%d' % i)] = S.c(0)
        o = w.o; E0 = w.norm(w.pnr(w.guess_pt))
        c[(G, 'itol')] = s_max(o['inner_tol_min'], s_min(E0, o['inner_tol_max']))
        w.combo = o['abs_tol'] + o['rel_tol'] * (S.c(1) + S.sym('forcing'))

    def kept(w, st0, s):
        """members that are not taken to be arbitrary when a solve starts are as they were, up to exchanging like components"""
        bad = []; a0, a1 = [], []
        for k in dict.fromkeys(list(st0.cells) + list(s.cells)):
            if k[:1] != w.alg or k[:len(w.opt)] == w.opt: continue
            a, b = st0.cells.get(k), s.cells.get(k)
            if a == b and type(a) is type(b): a0.append(a); a1.append(b); continue
            if isinstance(a, (S, B, P)) and type(a) is type(b): continue      # arbitrary to begin with
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.addr and b.addr and s.cls.get(a.addr) == s.cls.get(b.addr) and s.cls.get(a.addr): a0.append(a); a1.append(b); continue
            if isinstance(a, DV) and isinstance(b, DV) and a.size == b.size: continue
            bad.append('.'.join(map(str, k[1:])))
        P_ = lambda l: sorted(map(repr, (x for x in l if isinstance(x, Ptr))))
        if P_(a0) != P_(a1): bad.append('component pointers')
        w.ex._rec('invariant', w.alg_cls, 'a solve leaves the members of the algorithm as they were', 'unknown' if bad else 'yes', ', '.join(bad))

    # ------------------------------------------------------------ helpers
    def point(w, st, a):
        return Term('vec', [st.bufs[w.con[a][k]].base if not st.bufs[w.con[a][k]].log else w.ex.read_reg(st, w.con[a][k], whole(st.bufs[w.con[a][k]])) for k in 'zlvy'])
    def set(w, st, a, k, m):
        b = w.con[a][k]; st.bufs[b] = Buf(st.bufs[b].name, m)
    def ob(w, st, what, goal):
        """named property-level obligation"""
        if w.ex.quiet: 
            return
        r = smt.check_hard(st.facts, goal, 6000) if goal not in (TRUE, FALSE) else ('yes' if goal is TRUE else 'no')
        if r not in ('yes', 'unknown'): r = ('no', '%r under %r' % (goal, st.facts[-8:]))
        if goal is FALSE and not smt.feasible(st.facts): r = 'yes'
        w.record(what, r)
    def record(w, what, r):
        if w.ex.quiet: return
        if isinstance(r, tuple): status, info = r
        else: status, info = r, ''
        k = (w.g.fn, what); rank = {'yes': 0, 'unknown': 1, 'no': 2}
        x = w.seen.get(k)
        if x is None:
            w.g.goal(what, status, info); w.seen[k] = w.g.goals[-1]
        elif rank[status] > rank[x.status]: x.status, x.info = status, info
    seen = None

    def eq(w, a, b):
        """equality of points, vectors or scalars as a formula"""
        if isinstance(a, Bot) or isinstance(b, Bot): return TRUE
        if isinstance(a, Term) and isinstance(b, Term):
            if a.kind != b.kind or len(a.args) != len(b.args): return FALSE
            return band(*[w.eq(x, y) for x, y in zip(a.args, b.args)])
        if isinstance(a, Mat): return TRUE if a == b else mat_eq(a, b)
        if isinstance(a, S) or isinstance(b, S): return TRUE if toS(a) is toS(b) else req(toS(a), toS(b))
        if isinstance(a, P): return ieq(a, b)
        return TRUE if a == b else FALSE

    # terms
    def pnr(w, pt): return Term('PNR', pt.args + (w.o['alpha'],))
    def ir(w, pt, c, sigma): return Term('IR', pt.args + c.args[:3] + (sigma, w.o['alpha']))
    def norm(w, t):
        while isinstance(t, Term) and t.kind == 'neg': t = t.args[0]
        return app('norm', t)

def free(x):
    """symbols introduced by generalisation occurring in a value"""
    if isinstance(x, Term):
        out = set()
        for a in x.args: out |= free(a)
        return out
    if isinstance(x, str): return {x} if '~' in x else set()
    if isinstance(x, Mat):
        out = {b.name for b in x.bases()} | wsyms(x)
        for c in x.t.values(): out |= syms(c)
        ns = out
    elif isinstance(x, (S, B, P)): ns = syms(x)
    else: return set()
    out = set(); todo = list(ns); seen = set()
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        if '~' in n: out.add(n)
        k = INTERN.get(n)
        if k: todo += free_args(k[1])
    return out
def free_args(args):
    out = []
    for a in args: out += list(free(a))
    return out

def mat_eq(a, b):
    """equality of matrices as a formula (sufficient): equal coefficients"""
    if a.rows is not b.rows: return FALSE
    cs = []
    for x in set(a.t) | set(b.t):
        p, q = a.t.get(x, S.c(0)), b.t.get(x, S.c(0))
        if p is not q: cs.append(req(p, q))
    return band(*cs)
def whole(b):
    m = b.base
    return Region(None, 0, 0, m.rows, m.cols, m.rows)

RANGES = [('sigma0', 1e-13, None), ('sigma_max', 1e-6, 1e2), ('sigma_min', 1e-13, 1e-8), ('alpha', 0.001, 0.999), ('beta', 0.1, 0.99), ('eta', 1e-12, 0.499),
          ('delta', 0.0001, 0.99), ('gamma', 0.001, 0.9), ('abs_tol', 1e-14, None), ('rel_tol', 0.0, None), ('stall_tol', 1e-14, None), ('infeas_tol', 1e-14, None),
          ('inner_tol_max', 1e-8, 1e2), ('inner_tol_min', 1e-14, 1e-2), ('max_newton_iters', 1, None), ('max_prox_iters', 1, None), ('max_inner_iters', 1, None), ('max_linesearch_iters', 1, None)]

# ---------------------------------------------------------------- contracts of the components
def obj_addr(v):
    if isinstance(v, (OL, LV, Ptr)): return v.addr
    raise Unsupported('component argument %r' % (v,))

class Rules:
    """contracts of the components with the ghost protocol of the method attached"""
    def __init__(r, w):
        r.w = w; ex = w.ex; r.ex = ex
        for c, table in ((V, dict(LinkData=r.link, Copy=r.copy, axpy=r.axpy, Fill=r.fillv, InitializeConstraintMargin=r.margin, ProjectDuals=r.project, Norm=r.vnorm)),
                         (R, dict(LinkData=r.link, SetAlpha=r.alpha, Fill=r.fillr, Negate=r.negate, Norm=r.rnorm('norm'), Merit=r.rnorm('merit'), z_norm=r.rnorm('znorm'),
                                  l_norm=r.rnorm('lnorm'), v_norm=r.rnorm('vnorm_'), InnerResidual=r.inner, NaturalResidual=r.natural, PenalizedNaturalResidual=r.pnr)),
                         (w.lin_cls, dict(LinkData=r.link, SetAlpha=r.alpha, Initialize=r.init, Solve=r.solve)),
                         (F, dict(LinkData=r.link, CheckFeasibility=r.check))):
            for nm, h in table.items():
                fs = ex.p.find(c, nm)
                if not fs: raise Unsupported('%s::%s not found' % (c, nm))
                for f in fs: ex.contracts[(f.cls, nm)] = r.wrap(h)
        ex.contracts[(w.os_cls, 'PrintImplementation')] = r.wrap(r.print_)
        ex.loop_hook = r.loop; ex.apart = ((G, 'gacc'), (G, 'gt')); r.tables = {}
        o = w.o
        r.limits = [v for k, v in o.items() if isinstance(v, P) and k.startswith('max_')]
    def wrap(r, h): return lambda ex, st, this, vals, node: h(st, this, [ex.load(st, v) if isinstance(v, (LV, ER)) else v for v in vals], node)
    def data(r, st, a, node):
        d = st.cells.get((G, 'data', a))
        if d != Ptr(r.w.D.addr): r.w.ob(st, 'C13: every component works on the data of this solve', FALSE)
    def g(r, st, k): return st.cells[(G, k)]
    def s(r, st, k, v): st.cells[(G, k)] = v
    def act(r, st, what):
        """the solve goes on"""
        r.w.ob(st, 'C16: with FINAL only the closing summary is printed', bnot(r.g(st, 'closing')))
    def num(r, v): return toS(r.ex.num(v))
    def pt(r, st, v): return r.w.point(st, obj_addr(v))
    def margined(r, st, p):
        w = r.w
        w.ob(st, 'C07: the margin of every iterate in use is b - A z', w.eq(p.args[3], w.D.b - w.D.A * p.args[0]))

    # -- variables
    def link(r, st, this, vals, node):
        st.cells[(G, 'data', this)] = vals[0]
    def alpha(r, st, this, vals, node):
        st.cells[(G, 'alpha', this)] = r.num(vals[0])
    def copy(r, st, this, vals, node):
        w = r.w; src = obj_addr(vals[0]); p = w.point(st, src); old = w.point(st, this)
        C, res = r.g(st, 'C'), r.g(st, 'res')
        if isinstance(res, Term) and same_pt(old, C) and same_pt(p, res): r.update(st)
        for k, m in zip('zlvy', p.args): w.set(st, this, k, m)
        st.cells[(G, 'data', this)] = st.cells[(G, 'data', src)]
    def axpy(r, st, this, vals, node):
        w = r.w; r.data(st, this, node); a = r.num(vals[0]); D = w.D
        p, q = w.point(st, this), r.pt(st, vals[1])
        for x in (p, q): r.margined(st, x)
        n = [m + k.scale(a) for m, k in zip(p.args[:3], q.args[:3])]
        for k, m in zip('zlv', n): w.set(st, this, k, m)
        w.set(st, this, 'y', D.b - D.A * n[0])
    def fillv(r, st, this, vals, node):
        w = r.w; r.data(st, this, node); a = r.num(vals[0]); D = w.D
        for k, n in zip('zlv', (D.nz, D.nl, D.nv)): w.set(st, this, k, m_const(n, P.c(1), a))
        w.set(st, this, 'y', D.b - D.A * m_const(D.nz, P.c(1), a))
    def margin(r, st, this, vals, node):
        w = r.w; r.data(st, this, node)
        w.set(st, this, 'y', w.D.b - w.D.A * w.point(st, this).args[0])
    def vnorm(r, st, this, vals, node):
        return app('vnorm', *r.w.point(st, this).args[:3])
    def project(r, st, this, vals, node):
        w = r.w; p = w.point(st, this)
        body = s_max(m_elem(p.args[2], PJ), S.c(0)); v = vec_from_body(body, w.D.nv)
        if isinstance(r.g(st, 'cur'), Term):
            r.close(st)
            if r.g(st, 'sub') == Str('open') and isinstance(r.g(st, 'cur'), Term) and not same_pt(p, r.g(st, 'cur')):
                w.ob(st, 'C10: the iterate moves by the step the line search accepted', w.eq(p, r.g(st, 'cur'))); r.s(st, 'cur', p)
            if same_pt(p, r.g(st, 'cur')) and r.g(st, 'sub') == Str('open'):
                r.leave(st, p)
                r.s(st, 'res', Term('vec', (p.args[0], p.args[1], v, p.args[3]))); r.s(st, 'cur', BOT)
        w.set(st, this, 'v', v)
    def pending(r, st):
        """the subproblem was left by other means than ProjectDuals: look for its projected result"""
        w = r.w; cur = r.g(st, 'cur')
        v = vec_from_body(s_max(m_elem(cur.args[2], PJ), S.c(0)), w.D.nv)
        res = Term('vec', (cur.args[0], cur.args[1], v, cur.args[3])); r.leave(st, cur)
        if not any(same_pt(w.point(st, a), res, 3) for a in w.con):
            w.ob(st, "C18: the next outer iterate is the subproblem's projected result", FALSE); st.assume(FALSE)
        r.s(st, 'res', res); r.s(st, 'cur', BOT)
    def leave(r, st, p):
        """early-exit rule of the subproblem"""
        w = r.w; o = w.o; C = r.g(st, 'C')
        Ei, Eo, Ek = w.norm(w.ir(p, C, o['sigma0'])), w.norm(w.pnr(p)), w.norm(w.pnr(C))
        ok = bor(band(rle(Ei, r.g(st, 'itol')), rlt(Eo, Ek)), rle(Ei, o['inner_tol_min']),
                 ile(o['max_inner_iters'], r.g(st, 'ginner')), ile(o['max_newton_iters'], r.g(st, 'gnewton')))
        w.ob(st, 'C18: a subproblem is left only by its tolerances or with a budget used up', ok)
    def update(r, st):
        """a proximal update is completed: the pending result becomes the centre"""
        w = r.w; o = w.o; C, res = r.g(st, 'C'), r.g(st, 'res')
        last = Term('vec', [a - b for a, b in zip(res.args[:3], C.args[:3])])
        r.act(st, 'update')
        w.ob(st, 'C08: at most max_prox_iters proximal updates', ilt(r.g(st, 'gprox'), o['max_prox_iters']))
        w.ob(st, 'C06: a proximal step that passes an infeasibility test is reported',
             bor(bnot(o['check_feasibility']), ieq(status(w, last), w.FEASIBLE)))
        r.s(st, 'C', res); r.s(st, 'last', last); r.s(st, 'res', BOT); r.s(st, 'cur', BOT); r.s(st, 'sub', Str('none'))
        r.s(st, 'gprox', r.g(st, 'gprox') + 1)

    # -- residuals
    def put(r, st, this, t): st.cells[(G, 'term', this)] = t
    def fillr(r, st, this, vals, node): r.put(st, this, Term('fill', (r.num(vals[0]),)))
    def negate(r, st, this, vals, node):
        t = st.cells[(G, 'term', this)]; r.put(st, this, t.args[0] if t.kind == 'neg' else Term('neg', (t,)))
    def rnorm(r, kind):
        def h(st, this, vals, node):
            t = st.cells[(G, 'term', this)]
            while t.kind == 'neg': t = t.args[0]
            v = app(kind, t)
            if kind == 'merit': st.assume(rle(0, v))
            return v
        return h
    def natural(r, st, this, vals, node):
        r.data(st, this, node); p = r.pt(st, vals[0]); r.margined(st, p)
        r.put(st, this, Term('NR', p.args))
    def pnr(r, st, this, vals, node):
        r.data(st, this, node); p = r.pt(st, vals[0]); r.margined(st, p)
        r.put(st, this, Term('PNR', p.args + (st.cells[(G, 'alpha', this)],)))
    def inner(r, st, this, vals, node):
        w = r.w; o = w.o
        r.data(st, this, node); p, c = r.pt(st, vals[0]), r.pt(st, vals[1]); sg = r.num(vals[2])
        r.ex.oblige(st, 'pre', rlt(0, sg), node, 'InnerResidual: sigma is positive')
        r.margined(st, p)
        t = Term('IR', p.args + c.args[:3] + (sg, st.cells[(G, 'alpha', this)]))
        r.put(st, this, t)
        r.close(st)
        if r.g(st, 'mode') == Str('search'):
            X, Dd, gt = r.g(st, 'X'), r.g(st, 'D'), r.g(st, 'gt')
            tr = [a + b.scale(gt) for a, b in zip(X.args[:3], Dd.args[:3])]
            want = w.ir(Term('vec', tr + [w.D.b - w.D.A * tr[0]]), r.g(st, 'C'), o['sigma0'])
            w.ob(st, 'C10: trial merits are those of the current subproblem at x + beta^j dx', w.eq(t, want))
            w.ob(st, 'C08: at most max_linesearch_iters trials', ilt(r.g(st, 'gj'), o['max_linesearch_iters']))
            w.ob(st, 'C10: the first acceptable trial ends the search', bnot(r.g(st, 'gacc')))
            mp = app('merit', want); st.assume(rle(0, mp)); mc = r.g(st, 'mcur')
            h = r.g(st, 'hist0')
            for i in range(1, 5): h = s_max(h, r.g(st, 'hist%d' % i))
            m0 = s_ite(o['nonmonotone_linesearch'], h, mc)
            q = rle(mp, m0 - S.c(2) * gt * o['eta'] * mc)
            r.s(st, 'gj', r.g(st, 'gj') + 1)
            if r.ex.decide(st, q): r.s(st, 'gacc', TRUE)
            else: r.s(st, 'gt', gt * o['beta'])
        else: r.open(st, p, c)
    def open(r, st, p, c):
        """first use of the proximal subproblem"""
        w = r.w; o = w.o
        if r.g(st, 'sub') != Str('none') or not same_pt(p, r.g(st, 'C'), 3): return
        C = r.g(st, 'C'); Ek = w.norm(w.pnr(C)); lo = o['inner_tol_min']
        r.s(st, 'itol', s_max(lo, s_min(r.g(st, 'itol') * o['delta'], s_max(lo, Ek))))
        r.s(st, 'sub', Str('open')); r.s(st, 'cur', C); r.s(st, 'ginner', P.c(0))
        for i in range(5): r.s(st, 'hist%d' % i, S.c(0))
    def close(r, st, force=False):
        """end of a line search: the step is taken"""
        if r.g(st, 'mode') != Str('search'): return
        acc_, gj = r.g(st, 'gacc'), r.g(st, 'gj')
        done = bor(acc_, ile(r.w.o['max_linesearch_iters'], gj))
        if force: r.w.ob(st, 'C10: a search ends with an accepted trial or when its trials are used up', done)
        elif not smt.prove(st.facts, done, 1500): return
        X, Dd, gt, D = r.g(st, 'X'), r.g(st, 'D'), r.g(st, 'gt'), r.w.D
        n = [a + b.scale(gt) for a, b in zip(X.args[:3], Dd.args[:3])]
        r.s(st, 'cur', Term('vec', n + [D.b - D.A * n[0]]))
        for k in ('X', 'D', 'mcur', 'factored'): r.s(st, k, BOT)
        r.s(st, 'mode', Str('idle')); r.s(st, 'gt', S.c(1)); r.s(st, 'gj', P.c(0)); r.s(st, 'gacc', FALSE)

    # -- linear solver
    def init(r, st, this, vals, node):
        w = r.w; o = w.o
        r.data(st, this, node); p, c = r.pt(st, vals[0]), r.pt(st, vals[1]); sg = r.num(vals[2])
        r.ex.oblige(st, 'pre', rlt(0, sg), node, 'Initialize: sigma is positive')
        r.act(st, 'Initialize'); r.close(st); r.margined(st, p)
        r.open(st, p, c)
        w.ob(st, 'C10: the iterate moves by the step the line search accepted', w.eq(p, r.g(st, 'cur')) if isinstance(r.g(st, 'cur'), Term) else FALSE)
        w.ob(st, 'C18: the Newton system is centred at the last accepted outer iterate', band(*[w.eq(a, b) for a, b in zip(c.args[:3], r.g(st, 'C').args[:3])]))
        w.ob(st, 'C18: the Newton system uses the regularization in effect', w.eq(sg, o['sigma0']))
        w.ob(st, 'C18: the Newton system uses the penalty parameter in effect', w.eq(st.cells[(G, 'alpha', this)], o['alpha']))
        if isinstance(r.g(st, 'cur'), Term) and not same_pt(p, r.g(st, 'cur')): r.s(st, 'cur', p)
        ok = st.copy(); ok.cells[(G, 'factored')] = Term('factored', p.args + c.args[:3] + (sg, st.cells[(G, 'alpha', this)]))
        bad = st.copy(); bad.cells[(G, 'factored')] = BOT; bad.cells[(G, 'failed')] = TRUE
        return [(ok, TRUE), (bad, FALSE)]
    def solve(r, st, this, vals, node):
        w = r.w; o = w.o; D = w.D
        r.data(st, this, node); r.act(st, 'Solve')
        fac = r.g(st, 'factored'); cur, C = r.g(st, 'cur'), r.g(st, 'C')
        rr = st.cells[(G, 'term', obj_addr(vals[0]))]; dx = obj_addr(vals[1])
        if fac == BOT and r.g(st, 'failed') is TRUE:
            w.ob(st, 'C18: a failed factorization is not ignored', FALSE); st.assume(FALSE); return TRUE
        if not isinstance(fac, Term) or not isinstance(cur, Term) or r.g(st, 'mode') != Str('idle'):
            w.ob(st, 'C18: a Newton step needs a factorization of the current system', FALSE); raise Unsupported('Solve without factorization %r %r %r' % (fac, cur, r.g(st,'mode')))
        want = w.ir(cur, C, o['sigma0'])
        w.ob(st, 'C18: the right-hand side is the negated residual of the same subproblem and point', w.eq(rr, Term('neg', (want,))))
        w.ob(st, 'C18: the Newton system is solved with its own factorization', band(*[w.eq(a, b) for a, b in zip(fac.args, want.args)]))
        w.ob(st, 'C05: a point meeting the tolerance is returned without further iterations', bnot(rle(w.norm(w.pnr(C)), w.combo)))
        w.ob(st, 'C08: at most max_newton_iters Newton systems', ilt(r.g(st, 'gnewton'), o['max_newton_iters']))
        w.ob(st, 'C08: at most max_inner_iters Newton systems per subproblem', ilt(r.g(st, 'ginner'), o['max_inner_iters']))
        if same_pt(w.point(st, dx), cur, 4) and False: pass
        ds = []
        for k, n in zip('zlv', (D.nz, D.nl, D.nv)):
            key = ('step', k, fac, rr); nm = BYKEY.get(key)
            if nm is None:
                nm = BYKEY[key] = '%sd%s@%d' % ('stale:' if tainted(fac) or tainted(rr) else '', k, len(BYKEY)); INTERN[nm] = ('step', (fac, rr))
            ds.append(vletter(nm, n))
        y = D.b - D.A * ds[0]
        for k, m in zip('zlvy', ds + [y]): w.set(st, dx, k, m)
        mc = app('merit', want); st.assume(rle(0, mc))
        hs = [r.g(st, 'hist%d' % i) for i in range(4)]
        for i, h in enumerate([mc] + hs): r.s(st, 'hist%d' % i, h)
        r.s(st, 'mcur', mc); r.s(st, 'X', cur); r.s(st, 'D', Term('vec', ds)); r.s(st, 'mode', Str('search')); r.s(st, 'cur', BOT)
        r.s(st, 'gj', P.c(0)); r.s(st, 'gt', S.c(1)); r.s(st, 'gacc', FALSE); r.s(st, 'factored', BOT)
        r.s(st, 'gnewton', r.g(st, 'gnewton') + 1); r.s(st, 'ginner', r.g(st, 'ginner') + 1)
        return TRUE

    # -- feasibility and printing
    def check(r, st, this, vals, node):
        w = r.w; r.data(st, this, node)
        p = r.pt(st, vals[0]); tol = r.num(vals[1]); e = iapp('status', *(p.args[:3] + (tol,)))
        out = []
        for nm, v in w.status.items():
            s2 = st.copy(); s2.assume(ieq(e, v))
            if smt.feasible(s2.facts): out.append((s2, P.c(v)))
        return out
    def print_(r, st, this, vals, node):
        w = r.w; d = w.o[POL + '_level']
        w.ob(st, 'C16: nothing is printed with display off', ilt(0, d))
        m = vals[0]
        if isinstance(m, Str): fmt, vs = m.t, ()
        elif isinstance(m, Opaque) and isinstance(m.what, tuple) and m.what[0] == 'buf' and len(m.what) > 2: fmt, vs = m.what[2], m.what[3]
        else:
            w.ob(st, 'C16: printed text is initialised', FALSE); return
        final = ieq(d, 1)
        if not smt.prove(st.facts, bnot(final), 800): r.s(st, 'closing', bor(r.g(st, 'closing'), final))
        r.numbers(st, fmt.strip('"'), vs, final)
    LABELS = (('proximal iter', 'prox'), ('prox iter', 'prox'), ('newton iter', 'newton'), ('total newton', 'newton'), ('|rz|', 'znorm'), ('|rl|', 'lnorm'), ('|rv|', 'vnorm_'),
              ('inner tolerance', 'itol'), ('inner tol', 'itol'), ('tolerance', 'tol'), ('inner residual', 'inner'), ('inner res', 'inner'), ('residual', 'norm'))
    def label(r, t):
        t = t.lower(); best = None
        for k, v in r.LABELS:
            i = t.rfind(k)
            if i >= 0 and (best is None or i + len(k) > best[0]): best = (i + len(k), v)
        return best[1] if best else None
    def numbers(r, st, fmt, vs, final):
        w = r.w; o = w.o
        segs = re.split(r'%[-+ #0-9.*]*l?[a-zA-Z]', fmt); specs = re.findall(r'%[-+ #0-9.*]*l?([a-zA-Z])', fmt)
        if len(specs) != len(vs):
            w.ob(st, 'C16: every conversion has its value', FALSE); return
        strs = [v for v in vs if isinstance(v, Str)]
        if vs and len(strs) == len(vs):
            h = '\x00'.join(v.t.strip('"') for v in strs); r.tables.setdefault(len(vs), set()).add(h)
            r.s(st, 'heads', Str(h)); return
        heads = st.cells.get((G, 'heads')); heads = heads.t.split('\x00') if heads is not None else None
        if not heads and len(r.tables.get(len(vs), ())) == 1: heads = next(iter(r.tables[len(vs)])).split('\x00')
        blank = all(not x.strip().strip('\\n') for x in segs)
        row = None
        for i, (c, v) in enumerate(zip(specs, vs)):
            w.ob(st, 'C16: conversions match the printed types', TRUE if (c in 'di') == isinstance(v, P) or c == 's' else FALSE)
            if not (isinstance(v, S) and 'stale:time' in syms(v)):
                w.ob(st, 'C16: printed numbers do not depend on earlier solves', FALSE if tainted(v) or isinstance(v, S) and any(tainted(x) for x in interned(v) or ()) else TRUE)
            lab = r.label(segs[i]) if not blank else (r.label(heads[i]) if heads and len(heads) == len(vs) else None)
            if 'out of' in segs[i].lower() and i:
                lim = {'prox': 'max_prox_iters', 'newton': 'max_newton_iters'}.get(r.label(segs[i - 1]))
                if lim: w.ob(st, 'C16: printed limits are those in effect', ieq(v, o[lim]))
                continue
            if lab == 'prox': w.ob(st, 'C16: the printed proximal iteration count is that of the solve', w.eq(v, r.g(st, 'gprox')))
            elif lab == 'newton': w.ob(st, 'C16: the printed Newton iteration count is that of the solve', w.eq(v, r.g(st, 'gnewton')))
            elif lab in ('znorm', 'lnorm', 'vnorm_'):
                k = interned(v) if isinstance(v, S) else None
                w.ob(st, 'C16: printed residual norms are those of the component they are labelled with', TRUE if k and k[0] == lab and (row is None or row == k[1]) else FALSE)
                if k: row = k[1]
            elif lab == 'norm':
                k = interned(v) if isinstance(v, S) else None
                w.ob(st, 'C16: the printed residual is a residual norm', TRUE if k and k[0] == 'norm' else FALSE)
            elif lab == 'inner':
                k = interned(v) if isinstance(v, S) else None
                w.ob(st, 'C16: the printed inner residual is the norm of a residual of the subproblem', TRUE if k and k[0] in ('norm', 'fill') and not any(isinstance(x, Term) and x.kind in ('PNR', 'NR') for x in k[1]) else FALSE)
            elif lab == 'itol': w.ob(st, 'C16: the printed inner tolerance is that of the solve', w.eq(v, r.g(st, 'itol')))
            elif lab == 'tol' and (heads is not None and blank and not any('inner' in h.lower() for h in heads)):
                w.ob(st, 'C16: the printed tolerance is that of the solve', w.eq(v, w.combo))
        if row is not None: r.s(st, 'row', row[0])

    # ------------------------------------------------------------ loops
    def loop(r, ex, st, n):
        if not ex.callstack or not ex.callstack[-1].startswith('FBstabAlgorithm::'): return None
        if n['kind'] == 'ForStmt': init, cv, cond, inc, body = n['inner']; incs = [inc] if inc else []
        else: init, cond, incs, body = None, n['inner'][-2], [], n['inner'][-1]
        res = []
        for s, o in (ex.exec_stmt(st.copy(), init) if init else [(st.copy(), ('next',))]):
            if o[0] != 'next': res.append((s, o)); continue
            if cond:
                outs = ex.explore(s, lambda x: ex.cond(x, cond))
                if len(outs) == 1 and outs[0][1][0] == 'val' and outs[0][1][1] in (TRUE, FALSE): return None
            res += r.cut(s, n, cond, incs, body)
        out = []
        for s, o in res:
            if o[0] == 'next':
                s.env = {k: v for k, v in s.env.items() if k in st.env}
                r.tidy(s, st)
            out.append((s, o))
        nexts = ex.merge_list(st, [s for s, o in out if o[0] == 'next'])
        return [(s, ('next',)) for s in nexts] + [(s, o) for s, o in out if o[0] != 'next']
    def tidy(r, s, ref):
        """drop what is local to the loop"""
        for d in (s.cells, s.bufs, s.cls):
            for k in [k for k in d if k[0] in ('L', 'tmp') and k not in ref.cells and k not in ref.bufs and k not in ref.cls]: del d[k]
        s.cells.pop((G, 'row'), None)

    def once(r, s, cond, incs, body):
        """one iteration from the head: states at the next head, and exits"""
        ex = r.ex; backs, exits = [], []
        for s1, o in (ex.outs(s.copy(), lambda x: ex.decide(x, ex.cond(x, cond)), lambda x, v: ('b', v)) if cond else [(s.copy(), ('b', True))]):
            if o[0] != 'b': exits.append((s1, o)); continue
            if not o[1]: exits.append((s1, ('next',))); continue
            for s2, o2 in ex.exec_stmt(s1, body):
                if o2[0] == 'break': exits.append((s2, ('next',)))
                elif o2[0] in ('next', 'continue'):
                    cur = [s2]
                    for i in incs: cur = [s4 for s3 in cur for s4, o4 in ex.exec_stmt(s3, i)]
                    backs += cur
                else: exits.append((s2, o2))
        return backs, exits
    def settle(r, s, entry):
        """state at the next head, in normal form"""
        if r.g(entry, 'mode') != Str('search'): r.close(s, True)
        if r.g(entry, 'sub') == Str('none') and r.g(s, 'sub') == Str('open') and isinstance(r.g(s, 'cur'), Term) and not any(same_pt(r.w.point(s, a), r.g(s, 'C'), 3) for a in r.w.con): r.pending(s)
        if isinstance(r.g(s, 'res'), Term) and r.g(entry, 'res') == BOT and r.g(s, 'sub') == Str('open') and r.g(entry, 'sub') == Str('none'): r.update(s)
        s.env = {k: v for k, v in s.env.items() if k in entry.env}
        r.tidy(s, entry)
        for k, v in list(s.cells.items()):
            if isinstance(v, B) and v not in (TRUE, FALSE):
                if smt.prove(s.facts, v, 800): s.cells[k] = TRUE
                elif smt.prove(s.facts, bnot(v), 800): s.cells[k] = FALSE
        return s

    def cut(r, entry, n, cond, incs, body):
        ex = r.ex; w = r.w; where = '%s loop' % ex.callstack[-1]
        r.close(entry); r.tidy(entry, entry)
        nf = len(entry.facts); H = entry.copy(); gensyms = set()
        ex.quiet += 1
        try:
            for rnd in range(9):
                backs, _ = r.once(H, cond, incs, body)
                backs = [r.settle(b, entry) for b in backs]
                if not backs: break
                if rnd == 0 and r.g(entry, 'sub') == Str('none') and all(r.g(b, 'sub') == Str('open') for b in backs):
                    r.open(entry, r.g(entry, 'C'), r.g(entry, 'C')); H = entry.copy(); continue
                H2, inst, new = r.generalise(H, backs, gensyms)
                if inst: break
                H, gensyms = H2, new
            else: raise Unsupported('no loop invariant found at ' + where)
            if backs:
                cands = r.candidates(H, entry, backs)
                cands = [c for c in cands if r.holds(c, entry)]
                while True:
                    H.facts = entry.facts
                    for c in cands:
                        f = r.formula(c, H)
                        if f is not None: H.assume(f)
                    backs, _ = r.once(H, cond, incs, body)
                    backs = [r.settle(b, entry) for b in backs]
                    keep = [c for c in cands if all(r.holds(c, b) for b in backs)]
                    if len(keep) == len(cands): break
                    cands = keep
        finally: ex.quiet -= 1
        backs, exits = r.once(H, cond, incs, body)
        backs = [r.settle(b, entry) for b in backs]
        if backs:
            _, inst, _ = r.generalise(H, backs, gensyms)
            if not inst: raise Unsupported('loop invariant is not inductive at ' + where)
            r.ranking(H, backs, where)
        return exits

    def ranking(r, H, backs, where):
        w = r.w; ok = False
        for k, v in H.cells.items():
            if not isinstance(v, P) or v.const() is not None or k[0] == G: continue
            for lim in r.limits:
                if all(smt.prove(b.facts, band(ile(v + 1, b.cells[k]), ile(b.cells[k], lim)), 1500) for b in backs if k in b.cells): ok = True; break
            if not ok and all(smt.prove(b.facts, band(ile(b.cells[k] + 1, v), ile(0, v)), 1500) for b in backs if k in b.cells): ok = True
            if ok: break
        w.record('C08: every loop terminates: %s' % where, 'yes' if ok else ('unknown', 'no ranking function found'))

    def generalise(r, H, backs, gensyms):
        w = r.w; gens = set(); out = H.copy(); inst = True; cur = H
        for b in backs:
            gen = Gen('l'); nxt = cur.copy()
            keys = [k for k in cur.cells if k in b.cells]
            # scalars first: undefined values are matched with known pairs
            order = sorted(keys, key=lambda k: (isinstance(cur.cells[k], Bot) or isinstance(b.cells[k], Bot), isinstance(cur.cells[k], Term), repr(k)))
            bufs = [k for k in cur.bufs if k in b.bufs and not (cur.bufs[k] is b.bufs[k] or same_buf(cur.bufs[k], b.bufs[k]))]
            for k in [k for k in cur.bufs if k in b.bufs and k not in bufs]:
                x = cur.bufs[k].base
                if isinstance(x, Mat): gen.ident |= free(x)
            for k in set(cur.bufs) - set(b.bufs): nxt.bufs.pop(k)
            for k in set(cur.cells) - set(b.cells): nxt.cells.pop(k)
            for k in sorted(bufs, key=repr): nxt.bufs[k] = r.gen_buf(gen, k, cur, b)
            for k in order:
                x, y = cur.cells[k], b.cells[k]
                if k == (G, 'heads') and x != y: nxt.cells.pop(k); inst = False; continue
                if k[:2] == (G, 'data') and x != y: nxt.cells[k] = Str('unlinked'); inst = inst and x == Str('unlinked'); continue
                if isinstance(x, (S, P, B, Term, Bot, Mat, Opaque, Str)) and isinstance(y, (S, P, B, Term, Bot, Mat, Opaque, Str)): nxt.cells[k] = gen.gen(x, y, nm_of(k))
                elif x != y: raise Unsupported('loop changes %s' % (k,))
            i, new = gen.instance(gensyms)
            if DBG and not i:
                for (t, x, y), v in gen.pairs.items():
                    nm = bare(x)
                    if nm is None or nm not in gensyms or nm in gen.ident or (tainted(y) and not tainted(x)): print('   ', t, repr(x)[:100], '|', repr(y)[:100], '->', repr(v)[:60])
                print('--', ex_where(r))
            inst = inst and i
            gensyms = new; cur = nxt
        if not inst: cur.facts = H.facts
        return cur, inst, gensyms
    def gen_buf(r, gen, k, a, b):
        x, y = a.bufs[k], b.bufs[k]; c = a.cells.get(k)
        if isinstance(c, DV) and c.size.const() is not None:
            n = c.size.const()
            out = Buf(x.name, x.base)
            for i in range(n):
                reg = Region(None, i, 0, 1, 1, n)
                out = out.write((), reg, vec_from_body(gen.gen(m_elem(x.read((), reg), P.c(0)), m_elem(y.read((), reg), P.c(0)), 'mb%d' % i), 1))
            return out
        m1, m2 = (bb.read(ss.facts, whole(bb)) for bb, ss in ((x, a), (y, b)))
        return Buf(x.name, gen.gen(m1, m2, nm_of(k)))

    # -- candidate inequalities: functions of the state
    def candidates(r, H, entry, backs):
        w = r.w; out = []
        for k, v in H.cells.items():
            if k[0] == 'arg': continue
            e = entry.cells.get(k)
            if isinstance(v, P) and v is not e and not tainted(v):
                out.append(('le0', k))
                for lim in r.limits: out.append(('le', k, lim))
                if k[0] != G:
                    for c in ('gj', 'ginner', 'gprox', 'gnewton'):
                        gv, ge = H.cells[(G, c)], entry.cells[(G, c)]
                        if gv is ge or not isinstance(e, P): continue
                        for sg in (1, -1):
                          if all(isinstance(b.cells.get(k), P) and ((b.cells[k] - v) + (b.cells[(G, c)] - gv) * sg).const() == 0 for b in backs): out.append(('lin', k, c, sg, e + ge * sg))
            elif isinstance(v, B) and v is not e:
                out += [('b', k), ('nb', k)]
                if k[0] != G: out += [('iff', k), ('niff', k)]
            elif isinstance(v, S) and v is not e and not tainted(v):
                out.append(('eqg', k, (G, 'itol'))); out.append(('eqg', k, (G, 'gt')))
        for k, v in H.bufs.items():
            c = H.cells.get(k)
            if isinstance(c, DV) and c.size.const() == 5 and v is not entry.bufs.get(k):
                for i in range(5): out.append(('eqh', k, i))
        for i in range(5): out.append(('h0', i))
        out += [('gpos',), ('isg',), ('nn',), ('notopt',)]
        out = [('conj', c) if False else c for c in out]
        return out
    def formula(r, c, s):
        """the candidate as a formula over the state (None: not expressible)"""
        w = r.w; k = c[0]
        if k in ('le0', 'le', 'b', 'nb', 'eqg'):
            v = s.cells.get(c[1])
            if v is None: return None
        if k == 'lin':
            v = s.cells.get(c[1])
            return ieq(v + r.g(s, c[2]) * c[3], c[4]) if isinstance(v, P) else None
        if k in ('iff', 'niff'):
            v, q = s.cells.get(c[1]), r.g(s, 'gacc')
            if not isinstance(v, B) or not isinstance(q, B): return None
            if k == 'niff': q = bnot(q)
            return bor(band(v, q), band(bnot(v), bnot(q)))
        if k == 'le0': return ile(0, v) if isinstance(v, P) else None
        if k == 'le': return ile(v, c[2]) if isinstance(v, P) else None
        if k == 'b': return v if isinstance(v, B) else None
        if k == 'nb': return bnot(v) if isinstance(v, B) else None
        if k == 'eqg':
            x = s.cells[c[2]]
            return (TRUE if v is x else req(v, x)) if isinstance(v, S) and isinstance(x, S) else None
        if k == 'eqh':
            b = s.bufs[c[1]]; reg = Region(None, c[2], 0, 1, 1, 5)
            x, y = m_elem(b.read(s.facts, reg), P.c(0)), r.g(s, 'hist%d' % c[2])
            return TRUE if x is y else req(x, y)
        if k == 'h0': return rle(0, r.g(s, 'hist%d' % c[1]))
        C = r.g(s, 'C')
        if k == 'gpos': return ile(0, r.g(s, 'gprox'))
        if k == 'isg': return bor(ile(1, r.g(s, 'gprox')), is_guess(w, C))
        if k == 'nn': return bor(is_guess(w, C), nonneg_fact(C.args[2]))
        if k == 'notopt': return None
    def holds(r, c, s):
        f = r.formula(c, s)
        if f is None: return False
        return f is TRUE or smt.prove(s.facts, f, 1500)

def same_pt(a, b, n=4):
    if not isinstance(a, Term) or not isinstance(b, Term): return False
    return all(x == y for x, y in zip(a.args[:n], b.args[:n]))
def nm_of(k): return str(k[-1]) if isinstance(k[-1], str) and not k[-1].startswith('0x') else 'h'
def is_guess(w, p):
    """the point is the supplied guess"""
    ps = []
    for x, y in zip(p.args[:3], w.guess_pt.args[:3]):
        if x == y: continue
        if len(x.t) == 1:
            (wd, c), = x.t.items()
            if c is S.c(1) and len(wd) == 1 and wd[0][0] == 'b': ps.append(bsym('isg:' + wd[0][1].name)); continue
        return FALSE
    return band(*ps)
def status(w, last): return iapp('status', *(last.args[:3] + (w.o['infeas_tol'],)))

def gen_instance(gen, gensyms):
    """is the second value an instance of the first?  new generalised symbols otherwise"""
    new = set(); inst = True; used = {}
    for (t, x, y), v in gen.pairs.items():
        new |= free(v)
        nm = bare(x)
        if nm is None or nm not in gensyms or (tainted(y) and not tainted(x)): inst = False; continue
        if used.setdefault(nm, y) != y or nm in gen.ident: inst = False
    return inst, new | (gen.ident & gensyms)
Gen.instance = gen_instance
def bare(x):
    """name of a value that is a single symbol"""
    if isinstance(x, Mat):
        if len(x.t) == 1:
            (wd, c), = x.t.items()
            if c is S.c(1) and len(wd) == 1 and wd[0][0] == 'b': return wd[0][1].name
        return None
    if isinstance(x, S):
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym': return m[0][0].args[0]
        return None
    if isinstance(x, P):
        s = x.syms()
        if len(s) == 1 and x is P.sym(next(iter(s))): return next(iter(s))
        return None
    if isinstance(x, B) and x.k == 'bsym': return x.a[0]
    if isinstance(x, Term) and x.kind == 'stale:any': return x.args[0]
    return None

# ---------------------------------------------------------------- the property goals of one Solve
def enumerators(ex, nm):
    out = {e[1]: e[2] for e in ex.p.enums.values() if e[0].endswith(nm)}
    if not out: raise Unsupported('enumeration ' + nm)
    return out

def solve_goals(w):
    g, ex, o = w.g, w.ex, w.o
    flags = enumerators(ex, 'ExitFlag')
    rules = Rules(w)
    f = w.solve; st0 = w.st
    before = {k: v for k, v in st0.cells.items()}; bb = dict(st0.bufs)
    args = [OL(w.D.addr)] + [Ptr(w.io[k]) for k in 'zlvy'] + [OL(w.os)]
    outs = ex.explore(st0, lambda s: ex.call_fn(s, f, w.alg, args, None))
    if not outs: raise Unsupported('no outcome')
    seen = set()
    def out_point(s): return Term('vec', [ex.read_reg(s, w.argbuf[k], whole(s.bufs[w.argbuf[k]])) for k in 'zlvy'])
    for s, res in outs:
        if not smt.feasible(s.facts): continue
        # frame
        w.ob(s, 'C14: the options in effect are unchanged', TRUE if all(s.cells.get(k) == v for k, v in w.opt_cells.items()) else FALSE)
        w.ob(s, 'C16: all output goes through the supplied printer', TRUE if not s.events else FALSE)
        okb = set(w.argbuf.values())
        ch = [k for k in changed(st0, s, ()) if k[0] in ('arg', 'argbuf', 'data', 'os') and k not in okb]
        w.ob(s, 'C14: nothing but the storage of z, l, v, y is written', TRUE if not ch else FALSE)
        w.kept(st0, s)
        if res[0] == 'throw':
            w.ob(s, 'C14: a throwing solve leaves the guess as it was', TRUE if all(s.bufs[w.argbuf[k]] == bb[w.argbuf[k]] for k in 'zlvy') else FALSE)
            w.ob(s, 'C09: only a failed factorization makes a solve throw', rules.g(s, 'failed'))
            seen.add('throw'); continue
        w.ob(s, 'C18: a failed factorization is not ignored', bnot(rules.g(s, 'failed')))
        v = res[1]
        if not isinstance(v, OL): raise Unsupported('result %r' % (v,))
        fld = lambda k: s.cells[v.addr + (k,)]
        ef = fld('eflag'); alts = [(s, ef.const())] if ef.const() is not None else []
        if not alts:
            for nm, c in flags.items():
                s2 = s.copy(); s2.assume(ieq(ef, c))
                if smt.feasible(s2.facts): alts.append((s2, c))
            w.ob(s, 'C06: the exit flag is one of the documented ones', bor(*[ieq(ef, c) for c in flags.values()]))
        for s2, c in alts:
            nm = {b: a for a, b in flags.items()}.get(c)
            if nm is None: w.ob(s2, 'C06: the exit flag is one of the documented ones', FALSE); continue
            seen.add(nm)
            exit_goals(w, rules, s2, nm, fld, out_point(s2))
    w.g.goal('C05: SUCCESS is reachable', 'yes' if 'SUCCESS' in seen else 'no', str(seen))
    w.g.goal('C06: verdicts are reachable', 'yes' if {'PRIMAL_INFEASIBLE', 'DUAL_INFEASIBLE', 'PRIMAL_DUAL_INFEASIBLE'} <= seen else 'no', str(seen))
    w.g.goal('C08: budget exits are reachable', 'yes' if 'MAXITERATIONS' in seen else 'no', str(seen))

def exit_goals(w, r, s, nm, fld, pt):
    o = w.o; D = w.D; g = lambda k: r.g(s, k)
    r.close(s)
    resid, ini = toS(w.ex.num(fld('residual'))), toS(w.ex.num(fld('initial_residual')))
    nn, np_ = fld('newton_iters'), fld('prox_iters')
    infeas = nm in ('PRIMAL_INFEASIBLE', 'DUAL_INFEASIBLE', 'PRIMAL_DUAL_INFEASIBLE')
    w.ob(s, 'C07: the returned margin is b - A z for the returned z', w.eq(pt.args[3], D.b - D.A * pt.args[0]))
    w.ob(s, 'C08: the reported Newton count is that of the Newton systems solved', w.eq(nn, g('gnewton')))
    w.ob(s, 'C08: the reported proximal count is that of the updates completed', w.eq(np_, g('gprox')))
    w.ob(s, 'C08: reported counts respect their limits', band(ile(nn, o['max_newton_iters']), ile(np_, o['max_prox_iters']), ile(0, nn), ile(0, np_)))
    w.ob(s, 'C05: the reported initial residual is that of the guess', w.eq(ini, w.norm(w.pnr(w.guess_pt))))
    C = g('C')
    if not infeas:
        if nm not in ('SUCCESS', 'MAXITERATIONS'): w.ob(s, 'C06: the exit flag is one of the documented ones', FALSE); return
        want = w.norm(w.pnr(pt))
        w.ob(s, 'C05: the reported residual is the penalized natural residual norm of the returned point', w.eq(resid, want))
        w.ob(s, 'C07: returned inequality duals are nonnegative unless the guess itself is returned', bor(nonneg_fact(pt.args[2]), is_guess(w, pt)))
        row = s.cells.get((G, 'row'))
        if row is not None: w.ob(s, 'C16: the closing summary prints the residual norms of the returned point', w.eq(row, w.pnr(pt)))
    if nm == 'SUCCESS':
        last = g('last')
        short = band(ile(1, g('gprox')), rle(app('vnorm', *last.args[:3]), o['stall_tol'])) if isinstance(last, Term) else FALSE
        w.ob(s, 'C05: SUCCESS means the tolerance is met or the last proximal step was short', bor(rle(want, w.combo), short))
        w.ob(s, 'C05: SUCCESS returns the current outer iterate', band(*[w.eq(a, b) for a, b in zip(pt.args[:3], C.args[:3])]))
    if nm == 'MAXITERATIONS':
        w.ob(s, 'C08: MAXITERATIONS means a budget is used up', bor(ile(o['max_newton_iters'], g('gnewton')), ile(o['max_prox_iters'], g('gprox'))))
        same = lambda q: band(*[w.eq(a, b) for a, b in zip(pt.args[:3], q.args[:3])]) if isinstance(q, Term) else FALSE
        w.ob(s, 'C18: a budget exit returns the last outer iterate or the projected subproblem result', bor(same(C), same(g('res'))))
    if infeas:
        w.ob(s, 'C06: no verdict with checking disabled', o['check_feasibility'])
        e = iapp('status', *(pt.args[:3] + (o['infeas_tol'],)))
        w.ob(s, 'C06: the verdict is the status of the returned certificate', ieq(e, w.status[{'PRIMAL_DUAL_INFEASIBLE': 'BOTH'}.get(nm, nm)]))
        res = g('res')
        w.ob(s, 'C06: the certificate is the last proximal step', band(*[w.eq(p, a - b) for p, a, b in zip(pt.args[:3], res.args[:3], C.args[:3])]) if isinstance(res, Term) else FALSE)
    # independence
    bad = [k for k in ('residual', 'initial_residual', 'newton_iters', 'prox_iters', 'eflag') if tainted(fld(k))]
    w.ob(s, 'C13: the summary does not depend on earlier solves or uninitialised memory', TRUE if not bad else FALSE)
    w.ob(s, 'C13: the returned point does not depend on earlier solves, the guess of y or uninitialised memory', TRUE if not any(tainted(x) for x in pt.args) else FALSE)
    st_f = [x for x in s.facts if tainted(x)]
    w.ob(s, 'C13: no decision depends on earlier solves or uninitialised memory', TRUE if not st_f else FALSE)
    d = POL + '_level'
    ds = 'o.' + d
    dep = [x for x in s.facts if ds in deep(x) and x not in w.st.facts] + [x for x in pt.args if ds in deep(x)] + [k for k in ('residual', 'initial_residual', 'newton_iters', 'prox_iters', 'eflag') if ds in deep(fld(k))]
    w.ob(s, 'C16: the result does not depend on the display setting', TRUE if not dep else FALSE)
    w.ob(s, 'C16: with FINAL the closing summary is printed', bor(bnot(ieq(o[d], 1)), g('closing')))

def deep(x, out=None):
    """all symbols below a value, through interned terms"""
    if isinstance(x, Term):
        r = set()
        for a in x.args: r |= deep(a)
        return r
    if isinstance(x, Mat):
        ns = {b.name for b in x.bases()} | wsyms(x)
        for c in x.t.values(): ns |= syms(c)
    elif isinstance(x, (S, B, P)): ns = set(syms(x))
    else: return set()
    r = set(); todo = list(ns)
    while todo:
        n = todo.pop()
        if n in r: continue
        r.add(n); k = INTERN.get(n)
        if k:
            for a in k[1]: todo += list(deep(a))
    return r

def alg(g, lin, pat, stream='VStream'):
    ex = g.ex
    def f():
        keys = [k for k in ex.p.cls if k.startswith('fbstab::FBstabAlgorithm<') and lin in k and ex.p.cls[k].methods.get('Solve')]
        if len(keys) != 1: raise Unsupported('instantiation of FBstabAlgorithm for ' + lin)
        fs = [x for x in (ex.p.fns[m] for m in ex.p.cls[keys[0]].methods['Solve']) if x.body is not None and len(x.params) == 6 and stream in x.type and pat(x.type)]
        if len(fs) != 1: raise Unsupported('Solve instantiation: %d' % len(fs))
        w = World(g, keys[0], fs[0]); w.seen = {}
        solve_goals(w)
    g.sub('FBstabAlgorithm<%s>::Solve' % lin, f)

def dense(g): alg(g, 'DenseCholeskySolver', lambda t: 'Map' not in t)
def dense_map(g): alg(g, 'DenseCholeskySolver', lambda t: 'Map' in t)
def mpc(g): alg(g, 'RiccatiLinearSolver', lambda t: 'Map' not in t)
def mpc_map(g): alg(g, 'RiccatiLinearSolver', lambda t: 'Map' in t)

import os
DBG = bool(os.environ.get('ALGDBG'))
def ex_where(r): return r.ex.callstack[-1]
