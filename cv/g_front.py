"""Contracts of the option handling (C09) and of the front ends, constructors and argument checks (C11)."""
import re
from .check import *
from .g_alg import RANGES, enumerators

V, R, F, DS, RS = ('fbstab::' + k for k in ('FullVariable', 'FullResidual', 'FullFeasibility', 'DenseCholeskySolver', 'RiccatiLinearSolver'))
AP = 'fbstab::AlgorithmParameters'
fr = lambda x: S.c(Fraction(repr(x)))

# ---------------------------------------------------------------- options
BOOLS = ('check_feasibility', 'nonmonotone_linesearch')
NAMES = [r[0] for r in RANGES] + list(BOOLS) + ['display_level']

def opt_obj(ex, st, addr, tag, key=AP):
    """options struct whose every field is an arbitrary value (doubles include NaN and infinities)"""
    newobj(ex, st, addr, key)
    return arbitrary(st, addr, tag)

def arbitrary(st, addr, tag):
    o = {}
    for k in list(st.cells):
        if k[:len(addr)] != addr or len(k) != len(addr) + 1: continue
        v = st.cells[k]; nm = k[-1]
        if isinstance(v, S): v = S.sym(tag + nm)
        elif isinstance(v, B): v = bsym(tag + nm)
        elif isinstance(v, P): v = P.sym(tag + nm)
        else: raise Unsupported('option field ' + nm)
        st.cells[k] = v; o[nm] = v
    for nm in NAMES:
        if nm not in o: raise Unsupported('option ' + nm)
    return o

def fields(st, addr, names=NAMES):
    out = {}
    for nm in names:
        v = st.cells.get(addr + (nm,))
        if v is None: raise Unsupported('option ' + nm)
        out[nm] = v
    return out

def order_only(x):
    """built from inputs and constants by comparisons, min, max and selection only: then the infinities behave like huge numbers"""
    if isinstance(x, (P, B)): return True
    if x.const() is not None: return True
    if len(x.t) != 1: return False
    (m, c), = x.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1: return False
    a = m[0][0]
    if a.kind in ('sym', 'isym'): return True
    if a.kind in ('max', 'min'): return all(order_only(toS(y)) for y in a.args)
    if a.kind == 'ite': return bool_order(a.args[0]) and all(order_only(toS(y)) for y in a.args[1:])
    return False
def bool_order(b):
    if b.k in ('rle', 'rlt', 'req', 'isnan'): return all(order_only(y) for y in b.a)
    if b.k in ('not', 'and', 'or'): return all(bool_order(y) for y in b.a)
    return True

def same_val(a, b):
    if isinstance(a, B) or isinstance(b, B): return band(bor(a, bnot(b)), bor(b, bnot(a)))
    if isinstance(a, P) and isinstance(b, P): return ieq(a, b)
    return B('same', toS(a), toS(b)) if a is not b else TRUE

def in_range(nm, v):
    lo, hi = next((r[1], r[2]) for r in RANGES if r[0] == nm)
    if isinstance(v, P): return ile(lo, v)
    c = [bnot(isnan(v)), rle(fr(lo), v)]
    if hi is not None: c.append(rle(v, fr(hi)))
    return band(*c)

def sane(g, s, o, what):
    """the options are numbers in their documented ranges"""
    for nm, lo, hi in RANGES:
        if isinstance(o[nm], S) and not order_only(o[nm]): g.goal('%s: %s is computed by comparisons only' % (what, nm), 'unknown', repr(o[nm])[:200]); continue
        g.fact('%s: %s is a number in its documented range' % (what, nm), s.facts, in_range(nm, o[nm]))
    g.fact('%s: inner_tol_min <= inner_tol_max' % what, s.facts, rle(o['inner_tol_min'], o['inner_tol_max']))
    g.fact('%s: sigma_min <= sigma0 <= sigma_max' % what, s.facts, band(rle(o['sigma_min'], o['sigma0']), rle(o['sigma0'], o['sigma_max'])))

def options(g):
    ex = g.ex
    def accepted(o, out, nm):
        """the given value of a field is already valid"""
        v = o[nm]
        if nm in BOOLS or nm == 'display_level': return TRUE
        c = in_range(nm, v)
        if nm == 'sigma0': c = band(c, rle(S.c(Fraction('1e-10')), v), rle(out['sigma_min'], v), rle(v, out['sigma_max']))
        if nm == 'inner_tol_max': c = band(c, rle(out['inner_tol_min'], v))
        return c
    def run(g, s, call_, addr_out, o, what, isarg):
        n = 0
        for s2, r in call_:
            if r[0] == 'throw': g.fact('%s does not throw' % what, s2.facts, FALSE); continue
            n += 1; out = fields(s2, addr_out)
            sane(g, s2, out, what)
            for nm in NAMES:
                if isinstance(out[nm], S) and not order_only(out[nm]): g.goal('%s: a valid %s is kept' % (what, nm), 'unknown'); continue
                a = accepted(o, out, nm)
                g.fact('%s: a valid %s is kept' % (what, nm), s2.facts + ((a,) if a is not TRUE else ()), same_val(out[nm], o[nm]))
            bad = [nm for nm in NAMES if isinstance(out[nm], (S, P, B)) and any(str(x).startswith(('stale', 'old')) for x in names_of(out[nm]))]
            g.goal('%s: the options in effect depend on the supplied ones only' % what, not bad, str(bad))
            # idempotent
            t = s2.copy(); p = fields(t, addr_out)
            for s3, r3 in call(ex, t, addr_out, 'ValidateOptions', [], AP):
                if r3[0] == 'throw': g.fact('%s: sanitising again does not throw' % what, s3.facts, FALSE); continue
                q = fields(s3, addr_out)
                g.fact('%s: sanitising again changes nothing' % what, s3.facts, band(*[same_val(p[nm], q[nm]) for nm in NAMES]), 20000)
            yield s2
        if not n: g.goal('%s returns' % what, False)
    def names_of(x):
        from .g_alg import syms
        return syms(x)
    def validate():
        s = St(); o = opt_obj(ex, s, ('o',), 'in.')
        for s2 in run(g, s, call(ex, s, ('o',), 'ValidateOptions', [], AP), ('o',), o, 'ValidateOptions', False):
            d = [k for k in changed(s, s2, ()) if k[:1] != ('o',)]; g.goal('ValidateOptions changes only the options', not d, str(d))
    def alg_world(ex, key):
        st = St()
        for a, c in ((('x1',), V), (('x2',), V), (('x3',), V), (('x4',), V), (('r1',), R), (('r2',), R), (('lin',), DS), (('feas',), F)): st.cls[a] = c
        ctor = next(f for f in (ex.p.fns[m] for ms in ex.p.cls[key].methods.values() for m in ms) if f.kind == 'CXXConstructorDecl' and len(f.params) == 8 and f.body is not None)
        construct_f(ex, st, ('alg',), ctor, [Ptr(a) for a in (('x1',), ('x2',), ('x3',), ('x4',), ('r1',), ('r2',), ('lin',), ('feas',))])
        oa = [k for k, c in st.cls.items() if c == AP and k[:1] == ('alg',)]
        if len(oa) != 1: raise Unsupported('options member')
        return st, oa[0]
    def algs(): return [k for k in ex.p.cls if k.startswith('fbstab::FBstabAlgorithm<') and ex.p.cls[k].methods.get('UpdateParameters')]
    def update(key):
        def f():
            st, oa = alg_world(ex, key)
            sane(g, st, fields(st, oa), 'a new solver')
            arbitrary(st, oa, 'old.')
            o = opt_obj(ex, st, ('o',), 'in.')
            for s2 in run(g, st, call(ex, st, ('alg',), 'UpdateParameters', [Ptr(('o',))]), oa, o, 'UpdateParameters', True):
                d = [k for k in changed(st, s2, (oa,))]; g.goal('UpdateParameters changes only the options in effect', not d, str(d))
            for s2, r in call(ex, st, ('alg',), 'CurrentParameters', []):
                if r[0] == 'throw': g.goal('CurrentParameters returns', False); continue
                a = r[1].addr; p, q = fields(s2, a), fields(s2, oa)
                g.fact('CurrentParameters are the options in effect', s2.facts, band(*[same_val(p[nm], q[nm]) for nm in NAMES]))
        return f
    g.sub('AlgorithmParameters::ValidateOptions', validate)
    for k in algs(): g.sub('FBstabAlgorithm<%s>::UpdateParameters' % ('Dense' if 'Dense' in k else 'Riccati'), update(k))
    def preset(nm):
        def f():
            s = St(); opt_obj(ex, s, ('o',), 'stale.')
            for s2, r in call(ex, s, ('o',), nm, [], AP):
                if r[0] == 'throw': g.goal('%s returns' % nm, False); continue
                p = fields(s2, ('o',))
                bad = [k for k in NAMES if any('stale' in x for x in names_of(p[k]))]; g.goal('%s sets every field' % nm, not bad, str(bad))
                sane(g, s2, p, nm)
                for s3, r3 in call(ex, s2.copy(), ('o',), 'ValidateOptions', [], AP):
                    if r3[0] == 'throw': g.goal('the preset passes sanitisation', False); continue
                    q = fields(s3, ('o',))
                    for k in NAMES: g.fact('%s passes sanitisation unchanged: %s' % (nm, k), s3.facts, same_val(p[k], q[k]))
        return f
    for nm in ('DefaultParameters', 'ReliableParameters'): g.sub('AlgorithmParameters::' + nm, preset(nm))
    def statics(cls, nm, want):
        def f():
            s = St(); m = next((x for x in ex.p.find(cls, nm, 0) if x.body is not None), None)
            if m is None: raise Unsupported(nm)
            t = St(); newobj(ex, t, ('o',), AP); one(ex, t, lambda q: ex.call_fn(q, method(ex, AP, want, 0), ('o',), [], None)); p = fields(t, ('o',))
            for s2, r in ex.explore(s, lambda q: ex.call_fn(q, m, None, [], None)):
                if r[0] == 'throw': g.goal('%s returns' % nm, False); continue
                q = fields(s2, r[1].addr)
                for k in NAMES: g.fact('%s is the preset: %s' % (nm, k), s2.facts, same_val(p[k], q[k]))
        return f
    for c in ('FBstabDense', 'FBstabMpc'):
        g.sub(c + '::DefaultOptions', statics('fbstab::' + c, 'DefaultOptions', 'DefaultParameters'))
        g.sub(c + '::ReliableOptions', statics('fbstab::' + c, 'ReliableOptions', 'ReliableParameters'))

# ---------------------------------------------------------------- argument checks
def accept(g, outs_, cond, what, typ='std::runtime_error', reach=True):
    """a call succeeds exactly when cond holds; yields the successful outcomes"""
    n = 0
    for s, o in outs_:
        if o[0] == 'throw':
            g.fact('%s: only malformed input is rejected' % what, s.facts, bnot(cond), 15000)
            g.goal('%s: rejection throws runtime_error' % what, o[1] == typ, str(o[1]))
        else:
            n += 1
            g.fact('%s: malformed input is rejected' % what, s.facts, cond, 15000)
            yield s, o[1]
    if reach and not n: g.goal('%s: well-formed input is accepted' % what, False)

def runctor(ex, st, addr, f, vals):
    def go(t):
        t.cls[addr] = f.cls; ex.call_fn(t, f, addr, list(vals), None)
    return ex.explore(st, go)

def ctors(ex, key):
    c = ex.p.cls[key]
    return [f for f in (ex.p.fns[m] for m in c.methods.get(c.tname or key.split('::')[-1].split('<')[0], [])) if f.kind == 'CXXConstructorDecl' and (f.body is not None or f.inits)]

def instances(ex, key, n, mp):
    """instantiated constructors taking references (mapped storage) or objects"""
    cs = [x for x in ctors(ex, key) if len(x.params) == n and all(re.search(r'Eigen::|fbstab::', cxx.ty(p)) for p in x.params) and ('Map' in x.type) == mp]
    if not cs: raise Unsupported('constructor of ' + key)
    return cs

def by_sizes(ex, key, n):
    fs = [f for f in ctors(ex, key) if len(f.params) == n and all(cxx.ty(p) == 'int' for p in f.params)]
    if len(fs) != 1: raise Unsupported('constructor of %s' % key)
    return fs[0]

def sizes(g):
    ex = g.ex
    nz, nl, nv = map(P.sym, ('nz', 'nl', 'nv')); N, nx, nu, nc = map(P.sym, ('N', 'nx', 'nu', 'nc'))
    ok3 = band(ile(1, nz), ile(0, nl), ile(1, nv)); ok4 = band(ile(1, N), ile(1, nx), ile(1, nu), ile(1, nc))
    def workspace(key, args, ok):
        def f():
            for s, _ in accept(g, runctor(ex, St(), ('w',), by_sizes(ex, key, len(args)), args), ok, 'sizes'): pass
        return f
    for key in (V, R, F, DS): g.sub(key[8:] + '(sizes)', workspace(key, (nz, nl, nv), ok3))
    g.sub(RS[8:] + '(sizes)', workspace(RS, (N, nx, nu, nc), ok4))
    # components: sizes of the arguments, missing data, null pointers
    mz, ml, mv = map(P.sym, ('mz', 'ml', 'mv'))
    class Sz: pass
    def other(st, D):
        E_ = Sz(); E_.nz, E_.nl, E_.nv, E_.addr = mz, ml, mv, D.addr
        st.assume(ile(1, mz)); st.assume(ile(0, ml)); st.assume(ile(1, mv))
        return E_
    eq = band(ieq(mz, nz), ieq(ml, nl), ieq(mv, nv))
    def var(st, a, D, tag): component(ex, st, V, a, (D.nz, D.nl, D.nv), D.addr, None, tag)
    def comp(key, meth, mk, null=False, sigma=None):
        """method of a component: arguments of other sizes, missing data"""
        def f():
            st = St(); D = Abs(ex, st); E_ = other(st, D)
            component(ex, st, key, ('c',), (D.nz, D.nl, D.nv) if key != RS else (N, nx, nu, nc), D.addr, S.sym('alpha') if key != F else None, 'c')
            args, cond = mk(st, D, E_)
            for s, r in accept(g, call(ex, st, ('c',), meth, args), cond, '%s: argument sizes' % meth): pass
        return f
    def unlinked(key, meth, mk):
        def f():
            st = St(); D = Abs(ex, st)
            component(ex, st, key, ('c',), (D.nz, D.nl, D.nv), None, S.sym('alpha') if key not in (F, V) else None, 'c')
            for s, r in call(ex, st, ('c',), meth, mk(st, D)):
                g.goal('%s: rejects missing problem data' % meth, r[0] == 'throw' and r[1] == 'std::runtime_error', str(r))
        return f
    sg = S.sym('sigma')
    def two(st, D, E_):
        """x of the right size, xbar of another; and both of another"""
        st.assume(bnot(isnan(sg)))
        p, q, t = map(P.sym, ('pz', 'pl', 'pv')); st.assume(ile(1, p)); st.assume(ile(0, q)); st.assume(ile(1, t))
        X = Sz(); X.nz, X.nl, X.nv, X.addr = p, q, t, D.addr
        var(st, ('x',), X, 'x'); var(st, ('w',), E_, 'w')
        return [OL(('x',)), OL(('w',)), sg], band(eq, ieq(p, nz), ieq(q, nl), ieq(t, nv), rlt(0, sg))
    def onev(st, D, E_):
        var(st, ('x',), E_, 'x'); st.assume(bnot(isnan(S.sym('tol')))); return [OL(('x',)), S.sym('tol')], eq
    def mixed(st, D):
        var(st, ('x',), D, 'x'); var(st, ('w',), D, 'w'); return [OL(('x',)), OL(('w',)), S.c(Fraction(1, 2))]
    g.sub('FullResidual::InnerResidual', comp(R, 'InnerResidual', two))
    g.sub('FullFeasibility::CheckFeasibility', comp(F, 'CheckFeasibility', onev))
    for nm, mk in (('InnerResidual', mixed), ('NaturalResidual', lambda st, D: mixed(st, D)[:1]), ('PenalizedNaturalResidual', lambda st, D: mixed(st, D)[:1])):
        g.sub('FullResidual::' + nm, unlinked(R, nm, mk))
    g.sub('FullFeasibility::CheckFeasibility', unlinked(F, 'CheckFeasibility', lambda st, D: [mixed(st, D)[0], S.c(1)]))
    for nm, mk in (('InitializeConstraintMargin', lambda st, D: []), ('Fill', lambda st, D: [S.sym('a')]), ('axpy', lambda st, D: [S.sym('a'), mixed(st, D)[0]])): g.sub('FullVariable::' + nm, unlinked(V, nm, mk))
    # data objects
    def dense(pat):
        def f():
            st = St(); sh = dense_in(ex, st, ('in',), 'Map' in pat); z = sh['f'][0]
            ok = dense_ok(sh)
            cs = instances(ex, 'fbstab::DenseData', 6, 'Map' in pat)
            for s, _ in accept(g, runctor(ex, st, ('data',), cs[0], [Ptr(('in', k)) for k in 'HfGhAb']), ok, 'sizes'):
                for nm, n in (('nz', z), ('nl', sh['h'][0]), ('nv', sh['b'][0])):
                    for s2, r in call(ex, s, ('data',), nm, []): g.fact('%s() is the size' % nm, s2.facts, ieq(toP(ex.load(s2, r[1])), n))
            for k in 'HfGhAb':
                for s, o in runctor(ex, st.copy(), ('data',), cs[0], [NullP() if q == k else Ptr(('in', q)) for q in 'HfGhAb']):
                    g.goal('a null %s is rejected' % k, o[0] == 'throw' and o[1] == 'std::runtime_error', str(o))
        return f
    g.sub('DenseData(MatrixXd)', dense('')); g.sub('DenseData(Map)', dense('Map'))
    for mp in (False, True): g.sub('MpcData(%s)' % ('Map' if mp else 'MatrixSequence'), lambda mp=mp: mpc_data(g, mp))

def opargs(g):
    ex = g.ex
    def op_args(nm):
        def f():
            from . import g_ops
            base = St(); m = Mpc(ex, base); px, py = P.sym('px'), P.sym('py')
            nx_, ny_ = dict(gemvH=(m.nz, m.nz), gemvG=(m.nz, m.nl), gemvGT=(m.nl, m.nz), gemvA=(m.nz, m.nv), gemvAT=(m.nv, m.nz),
                            axpyf=(None, m.nz), axpyh=(None, m.nl), axpyb=(None, m.nv))[nm]
            def run(tag, cond, null=False):
                st = base.copy(); st.assume(ile(0, px)); st.assume(ile(0, py)); st.assume(cond)
                vec_obj(ex, st, ('x',), px, vletter('x', px)); vec_obj(ex, st, ('y',), py, vletter('y', py))
                y = NullP() if null else Ptr(('y',)); n = 0
                for s, o in call(ex, st, m.addr, nm, [ML(('x',)), S.sym('a'), S.sym('b'), y] if nx_ is not None else [S.sym('a'), y]):
                    n += 1; g.goal('%s is rejected' % tag, o[0] == 'throw' and o[1] == 'std::runtime_error', '%s %s' % (o, s.facts[-3:]))
                if not n: g.goal('%s is rejected' % tag, 'unknown', 'no outcome')
            if nx_ is not None:
                run('wrong size of x', band(bnot(ieq(px, nx_)), ieq(py, ny_)))
                run('a null y', ieq(px, nx_), True)
                run('wrong sizes of x and y', band(bnot(ieq(px, nx_)), bnot(ieq(py, ny_))))
            else: run('a null y', TRUE, True)
            run('wrong size of y', band(bnot(ieq(py, ny_)), ieq(px, nx_ if nx_ is not None else 1)))
        return f
    for nm in ('gemvH', 'gemvG', 'gemvGT', 'gemvA', 'gemvAT', 'axpyf', 'axpyh', 'axpyb'): g.sub('MpcData::' + nm, op_args(nm))
    def algctor(key):
        """the algorithm rejects a null component and accepts the others"""
        def f():
            objs = [(('x1',), V), (('x2',), V), (('x3',), V), (('x4',), V), (('r1',), R), (('r2',), R), (('lin',), DS if 'Dense' in key else RS), (('feas',), F)]
            cs = [x for x in ctors(ex, key) if len(x.params) == 8]
            if len(cs) != 1: raise Unsupported('constructor of the algorithm')
            for bad in [None] + list(range(8)):
                st = St()
                for a, c in objs: st.cls[a] = c
                n = 0
                for s, o in runctor(ex, st, ('alg',), cs[0], [NullP() if i == bad else Ptr(a) for i, (a, c) in enumerate(objs)]):
                    n += 1
                    if bad is None: g.goal('components are accepted', o[0] != 'throw', str(o))
                    else: g.goal('a null argument %d is rejected' % bad, o[0] == 'throw' and o[1] == 'std::runtime_error', str(o))
                if not n: g.goal('the constructor has an outcome', 'unknown')
        return f
    for k in ex.p.cls:
        if k.startswith('fbstab::FBstabAlgorithm<') and ex.p.cls[k].methods.get('UpdateParameters'): g.sub('FBstabAlgorithm<%s> constructor' % ('Dense' if 'Dense' in k else 'Riccati'), algctor(k))

SEQ = ('Q', 'R', 'S', 'q', 'r', 'A', 'B', 'c', 'E', 'L', 'd')
def seqs(ex, st, mp, ref=None, at=('in',)):
    """sequences of arbitrary lengths and shapes (or the given ones), and x0"""
    sh = {}
    for k in SEQ:
        l, r, c = sh[k] = ref[k] if ref else tuple(P.sym(t + k) for t in 'lrc')
        st.assume(ile(1 if mp else 0, l)); st.assume(ile(1, r)); st.assume(ile(1, c))
        a = at + (k,)
        if mp:
            b = ('buf', k); st.bufs[b] = Buf(k, Mat.letter(mk_b(Base(k, l * r * c, 1, (), ()))))
            newobj(ex, st, a, 'fbstab::MapMatrixSequence', (DPtr(b), l, r, c))
        else:
            newobj(ex, st, a, 'fbstab::MatrixSequence', (l, r, c))
            b = [x for x in st.bufs if x[:len(a)] == a]
            if len(b) != 1: raise Unsupported('MatrixSequence storage')
            st.bufs[b[0]] = Buf(k, Mat.letter(mk_b(Base(k, l * r * c, 1, (), ()))))
    n = sh['x0'] = P.sym('rx0') if not ref else ref['x0']
    st.assume(ile(0, n))
    m = vletter('x0', n)
    if mp:
        b = ('buf', 'x0'); st.bufs[b] = Buf('x0', m); st.cells[at + ('x0',)] = View(b, Region(None, 0, 0, n, P.c(1), n), True)
    else: vec_obj(ex, st, at + ('x0',), n, m)
    return sh

def seq_ok(sh):
    l = lambda k: sh[k][0]; r = lambda k: sh[k][1]; c = lambda k: sh[k][2]
    nx, nu, nc = r('Q'), r('R'), r('E'); n = l('Q'); e = []
    for k in 'RSqrELd': e.append(ieq(l(k), n))
    for k in 'ABc': e.append(ieq(l(k), n - 1))
    for k, a, b in (('Q', nx, nx), ('R', nu, nu), ('S', nu, nx), ('q', nx, 1), ('r', nu, 1), ('A', nx, nx), ('B', nx, nu), ('c', nx, 1), ('E', nc, nx), ('L', nc, nu), ('d', nc, 1)):
        e += [ieq(r(k), a), ieq(c(k), b)]
    return band(*(e + [ieq(sh['x0'], nx), ile(1, n)]))

def mpc_ctor(ex, mp):
    return instances(ex, 'fbstab::MpcData', 12, mp)[0]

def mpc_data(g, mp):
    ex = g.ex; st = St(); sh = seqs(ex, st, mp)
    f = mpc_ctor(ex, mp)
    for s, _ in accept(g, runctor(ex, st, ('data',), f, [Ptr(('in', k)) for k in SEQ] + [Ptr(('in', 'x0'))]), seq_ok(sh), 'sequences'):
        N, nx, nu, nc = sh['A'][0], sh['Q'][1], sh['R'][1], sh['E'][1]
        for nm, n in (('N', N), ('nx', nx), ('nu', nu), ('nc', nc)):
            for s2, r in call(ex, s, ('data',), nm, []): g.fact('%s() is the size' % nm, s2.facts, ieq(toP(ex.load(s2, r[1])), n))

def solvers(g):
    """argument checks of the linear solvers"""
    ex = g.ex
    N, nx, nu, nc = map(P.sym, ('N', 'nx', 'nu', 'nc'))
    class Sz: pass
    def world_(kind, linked=True):
        st = St()
        if kind == 'dense': D = Dense(ex, st, (1, 0, 1)); key = DS; args = (D.nz, D.nl, D.nv)
        else: D = Mpc(ex, st); key = RS; args = (D.N, D.nx, D.nu, D.nc)
        component(ex, st, key, ('ls',), args, D.addr if linked else None, S.sym('alpha'), 'ls')
        return st, D
    def shape(st, addr, key, D, nm, bad):
        X = Sz(); X.nz, X.nl, X.nv, X.addr = D.nz, D.nl, D.nv, D.addr
        if bad:
            n = P.sym('m' + nm[-1] + bad); st.assume(ile(0 if bad == 'nl' else 1, n)); st.assume(bnot(ieq(n, getattr(D, bad)))); setattr(X, bad, n)
        component(ex, st, key, addr, (X.nz, X.nl, X.nv), D.addr, S.sym('alpha') if key == R else None, nm)
    def reject(what, outs):
        n = 0
        for s, o in outs:
            n += 1; g.goal('%s is rejected' % what, o[0] == 'throw' and o[1] == 'std::runtime_error', str(o)[:200])
        if not n: g.goal('%s is rejected' % what, False)
    def go(kind):
        def f():
            sg = S.sym('sigma')
            for bad in ('nz', 'nl', 'nv'):
                for who in ('x', 'xbar', 'both'):
                    st, D = world_(kind); st.assume(rlt(0, sg))
                    shape(st, ('x',), V, D, 'm', bad if who != 'xbar' else None); shape(st, ('w',), V, D, 'm' if who == 'both' else 'w', bad if who != 'x' else None)
                    reject('Initialize: wrong %s of %s' % (bad, who), call(ex, st, ('ls',), 'Initialize', [OL(('x',)), OL(('w',)), sg]))
                    st, D = world_(kind)
                    shape(st, ('r',), R, D, 'm', bad if who != 'xbar' else None); shape(st, ('dx',), V, D, 'm' if who == 'both' else 'w', bad if who != 'x' else None)
                    reject('Solve: wrong %s of %s' % (bad, {'x': 'the residual', 'xbar': 'the step'}.get(who, who)), call(ex, st, ('ls',), 'Solve', [OL(('r',)), Ptr(('dx',))]))
            st, D = world_(kind); shape(st, ('r',), R, D, 'r', None); shape(st, ('dx',), V, D, 'd', None)
            reject('Solve: a null step', call(ex, st, ('ls',), 'Solve', [OL(('r',)), NullP()]))
            st, D = world_(kind); st.assume(rle(sg, 0)); shape(st, ('x',), V, D, 'x', None); shape(st, ('w',), V, D, 'w', None)
            reject('Initialize: nonpositive sigma', call(ex, st, ('ls',), 'Initialize', [OL(('x',)), OL(('w',)), sg]))
            st, D = world_(kind, False); st.assume(rlt(0, sg)); shape(st, ('x',), V, D, 'x', None); shape(st, ('w',), V, D, 'w', None)
            reject('Initialize: missing data', call(ex, st, ('ls',), 'Initialize', [OL(('x',)), OL(('w',)), sg]))
            st, D = world_(kind, False); shape(st, ('r',), R, D, 'r', None); shape(st, ('dx',), V, D, 'd', None)
            reject('Solve: missing data', call(ex, st, ('ls',), 'Solve', [OL(('r',)), Ptr(('dx',))]))
        return f
    g.sub('DenseCholeskySolver', go('dense')); g.sub('RiccatiLinearSolver', go('mpc'))

# ---------------------------------------------------------------- front ends
def front_dense(g): front(g, 'dense')
def front_mpc(g): front(g, 'mpc')

def dense_in(ex, st, at, ref):
    """matrices of arbitrary sizes at the fields of at: objects, or views of storage"""
    sh = {}
    for k in 'HfGhAb':
        r, c = (P.sym('r' + k), P.sym('c' + k) if k in 'HGA' else P.c(1)); st.assume(ile(0, r)); st.assume(ile(0, c)); sh[k] = (r, c)
        m = Mat.letter(mk_b(Base(k, r, c)))
        if ref:
            b = ('buf', k); st.bufs[b] = Buf(k, m); st.cells[at + (k,)] = View(b, Region(None, 0, 0, r, c, r), True)
        else: vec_obj(ex, st, at + (k,), r, m, k in 'fhb')
    return sh

def dense_ok(sh):
    z = sh['f'][0]
    return band(ieq(sh['H'][0], z), ieq(sh['H'][1], z), ieq(sh['G'][1], z), ieq(sh['A'][1], z), ieq(sh['G'][0], sh['h'][0]), ieq(sh['A'][0], sh['b'][0]))

def same_object(facts, c1, c2):
    """do two cell maps describe the same object: the same storage, and equal numbers"""
    if set(c1) != set(c2): return 'different fields %s' % sorted(set(c1) ^ set(c2))
    for k in c1:
        a, b = c1[k], c2[k]
        if a is b or a == b: continue
        if isinstance(a, MO) and isinstance(b, MO) and all(smt.prove(facts, ieq(toP(x), toP(y))) for x, y in ((a.rows, b.rows), (a.cols, b.cols))): continue
        if isinstance(a, P) and isinstance(b, P) and smt.prove(facts, ieq(a, b)): continue
        if isinstance(a, S) and isinstance(b, S) and smt.scalar_same(facts, a, b) in (True, 'yes'): continue
        if isinstance(a, View) and isinstance(b, View) and a.buf == b.buf:
            r, q = a.reg, b.reg
            if all(smt.prove(facts, ieq(x, y)) for x, y in ((r.r0, q.r0), (r.c0, q.c0), (r.rows, q.rows), (r.cols, q.cols))) and (smt.prove(facts, ieq(r.ld, q.ld)) or smt.prove(facts, ile(r.cols, 1))): continue
        return '%s: %r is not %r' % (k, a, b)
    return ''

def under(st, addr):
    return {k[len(addr):]: v for k, v in st.cells.items() if k[:len(addr)] == addr}

def front(g, kind):
    ex = g.ex; dense_ = kind == 'dense'
    key = 'fbstab::FBstabDense' if dense_ else 'fbstab::FBstabMpc'
    alg = next(k for k in ex.p.cls if k.startswith('fbstab::FBstabAlgorithm<') and ('Dense' in k) == dense_)
    names = ('nz', 'nl', 'nv') if dense_ else ('N', 'nx', 'nu', 'nc')
    sz = tuple(map(P.sym, names))
    ok = band(ile(1, sz[0]), ile(0, sz[1]), ile(1, sz[2])) if dense_ else band(*[ile(1, x) for x in sz])
    def dims():
        if dense_: return sz
        N, nx, nu, nc = sz
        return (N + 1) * (nx + nu), (N + 1) * nx, (N + 1) * nc
    def ctor():
        for s, _ in accept(g, runctor(ex, St(), ('fe',), by_sizes(ex, key, len(sz)), sz), ok, 'sizes'): pass
    g.sub(key[8:] + ' constructor', ctor)
    def solver():
        st = St(); st.assume(ok)
        one(ex, st, lambda t: (t.cls.__setitem__(('fe',), key), ex.call_fn(t, by_sizes(ex, key, len(sz)), ('fe',), list(sz), None)), 'constructor')
        return st
    def data_in(st, ref):
        """a problem data object of arbitrary sizes, the condition of being well-formed, and the pointers a data object is made from"""
        if dense_:
            sh = dense_in(ex, st, ('qp',), ref)
            return band(dense_ok(sh), ieq(sh['f'][0], sz[0]), ieq(sh['h'][0], sz[1]), ieq(sh['b'][0], sz[2])), [Ptr(('qp', k)) for k in 'HfGhAb']
        sh = seqs(ex, st, ref, None, ('qp',))
        return band(seq_ok(sh), ieq(sh['A'][0], sz[0]), ieq(sh['Q'][1], sz[1]), ieq(sh['R'][1], sz[2]), ieq(sh['E'][1], sz[3])), [Ptr(('qp', k)) for k in SEQ + ('x0',)]
    def guess(st, ref):
        c = []
        for k, n in zip('zlvy', dims() + (dims()[2],)):
            m = P.sym('m' + k); st.assume(ile(0, m)); c.append(ieq(m, n)); v = vletter('guess.' + k, m)
            if ref:
                b = ('mem', k); st.bufs[b] = Buf('guess.' + k, v); st.cells[('x', k)] = View(b, Region(None, 0, 0, m, P.c(1), m))
            else: vec_obj(ex, st, ('x', k), m, v)
        return band(*c)
    def solve(f, ref_d, ref_x):
        what = 'Solve(%s, %s%s)' % ('ProblemDataRef' if ref_d else 'ProblemData', 'VariableRef' if ref_x else 'Variable', ', os' if len(f.params) == 3 else '')
        def go():
            st = solver()
            okd, ptrs = data_in(st, ref_d); okx = guess(st, ref_x)
            st.cls[('qp',)] = key + ('::ProblemDataRef' if ref_d else '::ProblemData'); st.cls[('x',)] = key + ('::VariableRef' if ref_x else '::Variable')
            osc = next((k for k in ex.p.cls if k.endswith('::VStream')), None)
            st.cls[('os',)] = osc
            def rec(ex, s, this, vals, node):
                s.ghost = dict(s.ghost); s.ghost['solve'] = s.ghost.get('solve', ()) + ((s.copy(), this, tuple(vals)),)
                a = ('ret', len(s.ghost['solve'])); ex.construct(s, a, 'fbstab::SolverOut', None, [])
                for k in list(s.cells):
                    if k[:2] == a: v = s.cells[k]; s.cells[k] = S.sym('out.' + k[-1]) if isinstance(v, S) else P.sym('out.' + k[-1]) if isinstance(v, P) else v
                return OL(a)
            ex.contracts[(alg, 'Solve')] = rec
            try: outs = ex.explore(st, lambda t: ex.call_fn(t, f, ('fe',), [OL(('qp',)), Ptr(('x',))] + ([OL(('os',))] if len(f.params) == 3 else []), None))
            finally: del ex.contracts[(alg, 'Solve')]
            kept = lambda s: [k for k in changed(st, s, ()) if k[0] not in ('ret',)]
            for s, o in outs:
                d = kept(s); g.goal('the guess, the data and the solver are only touched by the algorithm', not d, str(d[:4]))
                if o[0] == 'throw': g.goal('nothing malformed reaches the algorithm', not s.ghost.get('solve'))
            n = 0
            for s, v in accept(g, outs, band(okd, okx), 'sizes'):
                calls = s.ghost.get('solve', ())
                if not g.goal('the algorithm is called once', len(calls) == 1, str(len(calls))): continue
                n += 1; s1, this, vals = calls[0]
                fe = [v_.addr for k, v_ in s.cells.items() if k[:1] == ('fe',) and isinstance(v_, Ptr) and s.cls.get(v_.addr) == alg]
                g.goal("the solver's own algorithm is run", fe == [this], '%s %s' % (fe, this))
                data, rest = vals[0], vals[1:5]
                t = s1.copy()
                construct_f(ex, t, ('ref',), instances(ex, 'fbstab::DenseData' if dense_ else 'fbstab::MpcData', len(ptrs), ref_d)[0], ptrs)
                r = same_object(t.facts, under(s1, data.addr), under(t, ('ref',))) if isinstance(data, OL) else repr(data)
                g.goal('the algorithm gets the problem as given', not r, r)
                for k, q in zip('zlvy', rest): g.goal('the algorithm works on the guess: %s' % k, isinstance(q, Ptr) and q.addr == ('x', k), repr(q))
                if len(f.params) == 3: g.goal('the algorithm prints to the given stream', isinstance(vals[5], OL) and vals[5].addr == ('os',), repr(vals[5]))
                r = same_object(s.facts, under(s, v.addr), under(s, ('ret', 1))) if isinstance(v, OL) else repr(v)
                g.goal('the outcome is returned as it is', not r, r)
            g.goal('a well-formed problem is solved', n > 0)
        g.sub(key[8:] + '::' + what, go)
    fs = [ex.p.fns[m] for m in ex.p.cls[key].methods.get('Solve', [])]
    seen = set()
    for f in fs:
        ts = [cxx.ty(p) for p in f.params]
        if f.body is None or any('Input' in t or 'OutStream' == t for t in ts): continue
        if not re.search(r'ProblemData', ts[0]): continue
        k = ('ProblemDataRef' in ts[0], 'VariableRef' in ts[1], len(ts)) + ((ts[2],) if len(ts) > 2 else ())
        if k in seen or (len(ts) > 2 and 'VStream' not in ts[2]): continue
        seen.add(k); solve(f, k[0], k[1])
    def instances_seen(): g.goal('every combination of data and guess types is verified', len({k[:2] for k in seen if k[2] == 3}) == 4, str(seen))
    g.sub(key[8:] + '::Solve', instances_seen)
    def wiring(): spaces(solver(), '')
    def spaces(st, tag):
        al = [k for k, c in st.cls.items() if c == alg]
        if len(al) != 1: raise Unsupported('algorithm of the front end')
        al = al[0]
        ps = [v for k, v in st.cells.items() if k[:len(al)] == al and len(k) == len(al) + 1 and isinstance(v, Ptr) and st.cls.get(v.addr) in (V, R, F, DS, RS)]
        want = sorted([V] * 4 + [R] * 2 + [F, DS if dense_ else RS])
        g.goal(tag + 'the algorithm has its workspaces', sorted(st.cls[p.addr] for p in ps) == want, str([st.cls[p.addr] for p in ps]))
        g.goal(tag + 'the workspaces are different objects', len({p.addr for p in ps}) == len(ps))
        own = {v.addr for k, v in st.cells.items() if k[:1] == ('fe',) and isinstance(v, Ptr)}
        g.goal(tag + 'the front end keeps the workspaces alive', all(p.addr in own for p in ps) and al in own)
        for p in ps:
            c = st.cls[p.addr]; t = st.copy()
            newobj(ex, t, ('ref',), c, sz if c == RS else dims())
            r = same_object(t.facts, drop(under(t, p.addr)), drop(under(t, ('ref',)))); g.goal(tag + '%s has the sizes of the problem' % c[8:], not r, r)
    def drop(d):
        """sizes and settings; the links to data are made by each solve"""
        return {k: v for k, v in d.items() if not isinstance(v, (Ptr, NullP)) and not k[-1].startswith('alpha')}
    g.sub(key[8:] + ' workspaces', wiring)
    def update():
        st = solver(); o = opt_obj(ex, st, ('o',), 'in.', key + '::Options')
        def rec(ex, s, this, vals, node):
            s.ghost = dict(s.ghost); s.ghost['upd'] = s.ghost.get('upd', ()) + ((this, tuple(vals), {k: v for k, v in s.cells.items() if isinstance(vals[0], Ptr) and k[:len(vals[0].addr)] == vals[0].addr}),)
        ex.contracts[(alg, 'UpdateParameters')] = rec
        try: outs = call(ex, st, ('fe',), 'UpdateOptions', [OL(('o',))])
        finally: del ex.contracts[(alg, 'UpdateParameters')]
        for s, r in outs:
            if r[0] == 'throw': g.goal('UpdateOptions does not throw', False, str(r)); continue
            c = s.ghost.get('upd', ())
            if not g.goal('UpdateOptions sets the options of the algorithm once', len(c) == 1 and s.cls.get(c[0][0]) == alg, str(c)[:300]): continue
            got = c[0][2]; a = c[0][1][0].addr
            bad = [nm for nm in NAMES if got.get(a + (nm,)) is not o[nm] and got.get(a + (nm,)) != o[nm]]
            g.goal('UpdateOptions passes the options on', not bad, str(bad))
            d = [k for k in changed(st, s, (('fe',),))]; g.goal('UpdateOptions changes nothing else', not d, str(d))
    g.sub(key[8:] + '::UpdateOptions', update)
    def refs():
        st = St()
        rk, vk = key + '::ProblemDataRef', key + '::VariableRef'
        if dense_:
            sh = dense_in(ex, st, ('in',), True); ks = 'HfGhAb'
            cs = [f for f in ctors(ex, rk) if len(f.params) == 6]
            outs = runctor(ex, st, ('ref',), cs[0], [Ptr(('in', k)) for k in ks])
        else:
            sh = seqs(ex, st, False); ks = SEQ + ('x0',)
            cs = [f for f in ctors(ex, rk) if len(f.params) == 12]
            outs = runctor(ex, st, ('ref',), cs[0], [Ptr(('in', k)) for k in ks])
        for s, o in outs:
            if o[0] == 'throw': g.fact('ProblemDataRef does not throw', s.facts, FALSE); continue
            for k in ks:
                if dense_ or k == 'x0':
                    a, b = ex.view(s, s.cells[('ref', k)]), ex.view(s, s.cells[('in', k)] if isinstance(s.cells[('in', k)], View) else ML(('in', k)))
                    r = same_object(s.facts, {(): a}, {(): b}); g.goal('ProblemDataRef refers to %s' % k, not r, r); continue
                t = s.copy(); i = P.sym('i'); t.assume(ile(0, i)); t.assume(ilt(i, sh[k][0]))
                for nm, n in zip(('length', 'rows', 'cols'), sh[k]):
                    for s2, r in call(ex, s, ('ref', k), nm, []): g.fact('ProblemDataRef: %s of %s' % (nm, k), s2.facts, ieq(toP(ex.load(s2, r[1])), n))
                vs = []
                for root in ('ref', 'in'):
                    m = next(f for f in ex.p.find(s.cls[(root, k)], 'operator()', 1) if f.body is not None and f.const)
                    u = t.copy(); vs += [(ex.view(s2, r[1]), s2.facts) for s2, r in ex.explore(u, lambda q: ex.call_fn(q, m, (root, k), [i], None)) if r[0] == 'val']
                if len(vs) != 2: g.goal('ProblemDataRef: matrix i of %s' % k, 'unknown', str(len(vs))); continue
                r = same_object(vs[0][1], {(): vs[0][0]}, {(): vs[1][0]}); g.goal('ProblemDataRef: matrix i of %s is the original' % k, not r, r)
            d = changed(st, s, (('ref',),)); g.goal('ProblemDataRef changes nothing', not d, str(d))
        st = St()
        for k in 'zlvy':
            m = P.sym('m' + k); st.assume(ile(0, m)); b = ('mem', k); st.bufs[b] = Buf('guess.' + k, vletter('guess.' + k, m)); st.cells[('in', k)] = View(b, Region(None, 0, 0, m, P.c(1), m))
        cs = [f for f in ctors(ex, vk) if len(f.params) == 4]
        ptr = '*' in cxx.ty(cs[0].params[0])
        for s, o in runctor(ex, st, ('ref',), cs[0], [Ptr(('in', k)) if ptr else st.cells[('in', k)] for k in 'zlvy']):
            if o[0] == 'throw': g.goal('VariableRef does not throw', False); continue
            for k in 'zlvy': r = same_object(s.facts, {(): s.cells[('ref', k)]}, {(): s.cells[('in', k)]}); g.goal('VariableRef refers to %s' % k, not r, r)
            d = changed(st, s, (('ref',),)); g.goal('VariableRef changes nothing', not d, str(d))
        if not dense_:
            for n in (False, True):
                st = St(); m = P.sym('m'); st.assume(ile(0, m)); newobj(ex, st, ('ref',), rk)
                fs = [f for f in ex.p.find(rk, 'SetX0', 1) if f.body is not None and 'Eigen' in cxx.ty(f.params[0])]
                if not fs: g.goal('SetX0 is verified', 'unknown'); break
                vec_obj(ex, st, ('in', 'x0'), m, vletter('x0', m))
                for s, o in ex.explore(st, lambda q: ex.call_fn(q, fs[0], ('ref',), [ML(('in', 'x0'))], None)):
                    r = same_object(s.facts, {(): ex.view(s, s.cells[('ref', 'x0')])}, {(): ex.view(s, ML(('in', 'x0')))}) if o[0] == 'val' else str(o); g.goal('SetX0 refers to x0', not r, r)
                break
    g.sub(key[8:] + ' references', refs)
    def pos():
        st = St(); st.assume(ok); return st
    def users(f):
        def go():
            n = dims() if dense_ else sz
            for s, o in runctor(ex, pos(), ('x',), by_sizes(ex, key + '::Variable', len(n)), n):
                if o[0] == 'throw': g.goal('Variable is constructed', False, str(o)); continue
                f(s)
        return go
    def sizes_of(s, what='Variable'):
        for k, m in zip('zlvy', dims() + (dims()[2],)): v = ex.view(s, ML(('x', k))); g.fact('%s: size of %s' % (what, k), s.facts, band(ieq(v.rows, m), ieq(v.cols, 1)))
    def zeros(s):
        for k, m in zip('zlvy', dims() + (dims()[2],)): v = ex.view(s, ML(('x', k))); g.vec('Variable: %s is zero' % k, s, ex.read_reg(s, v.buf, v.reg), Mat.zero(m, P.c(1)))
    def problem():
        n = dims() if dense_ else sz
        if dense_:
            for s, o in runctor(ex, pos(), ('qp',), by_sizes(ex, key + '::ProblemData', 3), n):
                if o[0] == 'throw': g.goal('ProblemData is constructed', False, str(o)); continue
                for k, r, c in (('H', n[0], n[0]), ('G', n[1], n[0]), ('A', n[2], n[0]), ('f', n[0], P.c(1)), ('h', n[1], P.c(1)), ('b', n[2], P.c(1))):
                    v = ex.view(s, ML(('qp', k))); g.fact('ProblemData: size of %s' % k, s.facts, band(ieq(v.rows, r), ieq(v.cols, c)))
    g.sub(key[8:] + ' sizes of users\' objects', users(sizes_of)); g.sub(key[8:] + ' sizes of users\' objects', problem)
    g.sub(key[8:] + ' storage', users(zeros))
    def bysize():
        """the constructors taking the four sizes as a vector do what those taking them as numbers do"""
        st = pos(); one_ = P.c(1)
        vec_obj(ex, st, ('s',), P.c(4), Mat.zero(P.c(4), one_)); b = st.bufs[('s',)]
        for i, q in enumerate(sz): b = b.write(st.facts, Region(None, P.c(i), 0, one_, one_, P.c(4)), m_const(one_, one_, toS(q)))
        st.bufs[('s',)] = b
        for cls, at in ((key + '::Variable', ('x',)), (key, ('fe',))):
            cs = [f for f in ctors(ex, cls) if len(f.params) == 1 and ('Vector4d' in cxx.ty(f.params[0]) or 'double, 4' in cxx.ty(f.params[0]))]
            if len(cs) != 1: raise Unsupported('constructor taking the sizes as a vector')
            for s, o in runctor(ex, st, at, cs[0], [ML(('s',))]):
                if o[0] == 'throw': g.fact('%s(sizes) is constructed' % cls[8:], s.facts, FALSE); continue
                if at == ('x',): sizes_of(s, 'Variable(sizes)'); continue
                spaces(s, 'with sizes as a vector: ')
                r = same_object(s.facts, drop(under(s, at)), drop(under(solver(), at))); g.goal('FBstabMpc(sizes) has the sizes given', not r, r)
    if not dense_: g.sub(key[8:] + ' with sizes as a vector', bysize)
    def filled():
        vk = key + '::Variable'; a = S.sym('a')
        def chk(cls, st, roots):
            for s, o in call(ex, st, ('x',), 'fill', [a], cls):
                if o[0] == 'throw': g.goal('fill returns', False, str(o)); continue
                for k, m in zip('zlvy', dims() + (dims()[2],)):
                    cell = s.cells.get(('x', k)); v = cell if isinstance(cell, View) else ex.view(s, ML(('x', k)))
                    g.vec('fill sets %s' % k, s, ex.read_reg(s, v.buf, v.reg), m_const(m, P.c(1), a))
                d = [k for k in changed(st, s, roots) if k[:1] != ('x',)]; g.goal('fill changes only the four vectors', not d, str(d))
        n = dims() if dense_ else sz
        st = pos()
        for k, m in zip('zlvy', dims() + (dims()[2],)):
            b = ('mem', k); st.bufs[b] = Buf('guess.' + k, vletter('guess.' + k, m)); st.cells[('x', k)] = View(b, Region(None, 0, 0, m, P.c(1), m))
        st.cls[('x',)] = key + '::VariableRef'; chk(key + '::VariableRef', st, tuple(('mem', k) for k in 'zlvy'))
        for s, o in runctor(ex, pos(), ('x',), by_sizes(ex, vk, len(n)), n):
            if o[0] != 'throw' and ex.p.cls[vk].methods.get('fill'): chk(vk, s, (('x',),))
    g.sub(key[8:] + ' variables', filled)
    def nulls():
        ctor_ = next(f for f in (ex.p.fns[m] for ms in ex.p.cls[alg].methods.values() for m in ms) if f.kind == 'CXXConstructorDecl' and len(f.params) == 8 and f.body is not None)
        st = solver(); al = [k for k, c in st.cls.items() if c == alg][0]
        ps = [v for k, v in st.cells.items() if k[:len(al)] == al and len(k) == len(al) + 1 and isinstance(v, Ptr) and st.cls.get(v.addr) in (V, R, F, DS, RS)]
        by = {}
        for p in ps: by.setdefault(st.cls[p.addr], []).append(p)
        args = []
        for q in ctor_.params: args.append(by[ex.p.class_key(cxx.ty(q).replace('*', ''))].pop(0))
        for i, q in enumerate(ctor_.params):
            for s, o in runctor(ex, st.copy(), ('alg2',), ctor_, [NullP() if j == i else a for j, a in enumerate(args)]):
                g.goal('FBstabAlgorithm rejects a null %s' % q.get('name'), o[0] == 'throw' and o[1] == 'std::runtime_error', str(o)[:200])
        for s, o in runctor(ex, st.copy(), ('alg2',), ctor_, args): g.goal('FBstabAlgorithm accepts its components', o[0] == 'val', str(o)[:200])
    g.sub('FBstabAlgorithm constructor', nulls)
