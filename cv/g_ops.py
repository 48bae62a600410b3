"""Contracts of MatrixSequence / MapMatrixSequence (C12) and of the problem data operators (C02)."""
from .check import *

# ---------------------------------------------------------------- matrix sequences
def seq_access(g, ex, s, addr, key, ln, nr, nc, buf):
    """operator()(k) contract on the object at addr"""
    for f in ex.p.find(key, 'operator()', 1):
        if f.body is None: continue
        tag = 'const ' if f.type.rstrip().endswith('const') else ''
        k = P.sym('k')
        outs = ex.explore(s, lambda x: ex.call_fn(x, f, addr, [k], None))
        inr = band(ile(0, k), ilt(k, ln))
        n = 0
        for s2, o in outs:
            ex_ = s2.facts
            if o[0] == 'throw':
                g.fact(tag + 'throws only for k outside 0..len-1', ex_, bnot(inr))
                g.goal(tag + 'throws out_of_range', o[1] == 'std::out_of_range', o[1])
            else:
                n += 1
                g.fact(tag + 'accepts only k in 0..len-1', ex_, inr)
                v = o[1]
                if not isinstance(v, View): g.goal(tag + 'returns a view', 'unknown', repr(v)); continue
                g.goal(tag + 'views the storage of the sequence', v.buf == buf, '%s' % (v.buf,))
                g.fact(tag + 'view has the shape of the sequence', ex_, band(ieq(v.rows, nr), ieq(v.cols, nc)))
                g.fact(tag + 'matrix k starts at k*rows*cols', ex_, ieq(v.reg.off(), k * nr * nc))
                g.goal(tag + 'columns are consecutive (column-major)', same(ex_, v.reg, Region(None, k * nr * nc, 0, nr, nc, nr)) )
            g.goal(tag + 'access changes nothing', not changed(s, s2, ()), str(changed(s, s2, ())))
        g.goal(tag + 'some access succeeds', n > 0)

def matseq(g):
    ex = g.ex
    ln, nr, nc = P.sym('len'), P.sym('nr'), P.sym('nc')
    def owned():
        st = St()
        f = ctor_with(ex, 'fbstab::MatrixSequence', '(int, int, int)')
        a = ('seq',)
        def run(s):
            s.cls[a] = f.cls; ex.call_fn(s, f, a, [ln, nr, nc], None)
        valid = band(ile(0, ln), ile(1, nr), ile(1, nc))
        n = 0
        for s, o in ex.explore(st, run):
            if o[0] == 'throw':
                g.fact('constructor rejects only invalid sizes', s.facts, bnot(valid))
                g.goal('constructor throws runtime_error', o[1] == 'std::runtime_error', o[1])
            else:
                n += 1
                g.fact('constructor accepts only valid sizes', s.facts, valid)
                accessors(s, a, 'fbstab::MatrixSequence')
                b = [k for k in s.bufs if k[:1] == ('seq',)]
                if len(b) != 1: raise Unsupported('storage')
                g.fact('storage holds len*rows*cols elements', s.facts, ieq(s.cells[b[0]].size, ln * nr * nc))
                seq_access(g, ex, s, a, 'fbstab::MatrixSequence', ln, nr, nc, b[0])
                # a mapped view of it
                fm = ctor_with(ex, 'fbstab::MapMatrixSequence', '(const MatrixSequence &)')
                m = ('map',)
                def run2(t):
                    t.cls[m] = fm.cls; ex.call_fn(t, fm, m, [OL(a)], None)
                ok = 0
                for t, o2 in ex.explore(s, run2):
                    if o2[0] == 'throw': g.goal('mapping a sequence succeeds', False, o2[1]); continue
                    ok += 1
                    old = g.fn; g.fn = 'MapMatrixSequence(const MatrixSequence&)'
                    accessors(t, m, 'fbstab::MapMatrixSequence')
                    seq_access(g, ex, t, m, 'fbstab::MapMatrixSequence', ln, nr, nc, b[0])
                    g.fn = old
                g.goal('mapping a sequence is possible', ok > 0)
        g.goal('some sequence can be constructed', n > 0)
    def accessors(s, a, key):
        for nm, want in (('rows', nr), ('cols', nc), ('length', ln), ('size', ln * nr * nc)):
            for s2, o in call(ex, s, a, nm, [], key):
                if o[0] != 'val': g.goal(nm + '() returns', False); continue
                v = ex.load(s2, o[1])
                g.fact('%s() is the size given' % nm, s2.facts, ieq(toP(v), want))
    def mapped():
        for null in (False, True):
            st = St(); ba = ('mem',)
            size = ln * nr * nc
            st.cells[ba] = DV(size); st.bufs[ba] = Buf('mem', Mat.letter(mk_b(Base('mem', size, 1))))
            f = ctor_with(ex, 'fbstab::MapMatrixSequence', '(const double *, int, int, int)')
            m = ('map',)
            p = NullP() if null else DPtr(ba)
            def run(t):
                t.cls[m] = f.cls; ex.call_fn(t, f, m, [p, ln, nr, nc], None)
            valid = FALSE if null else band(ile(1, ln), ile(1, nr), ile(1, nc))
            n = 0
            for s, o in ex.explore(st, run):
                if o[0] == 'throw':
                    g.fact('constructor rejects only invalid sizes or null', s.facts, bnot(valid))
                    g.goal('constructor throws runtime_error', o[1] == 'std::runtime_error', o[1])
                else:
                    n += 1
                    g.fact('constructor accepts only valid sizes and memory', s.facts, valid)
                    if null: continue
                    accessors(s, m, 'fbstab::MapMatrixSequence')
                    seq_access(g, ex, s, m, 'fbstab::MapMatrixSequence', ln, nr, nc, ba)
            if not null: g.goal('some map can be constructed', n > 0)
    def copies():
        st = St(); st.assume(ile(1, ln)); st.assume(ile(1, nr)); st.assume(ile(1, nc))
        newobj(ex, st, ('seq',), 'fbstab::MatrixSequence', (ln, nr, nc))
        b = [k for k in st.bufs if k[:1] == ('seq',)][0]
        for f in [ex.p.fns[m] for m in ex.p.cls['fbstab::MatrixSequence'].methods.get('MatrixSequence', [])] + list(ex.p.find('fbstab::MatrixSequence', 'operator=', 1) or []):
            if f.kind == 'CXXConstructorDecl' and len(f.params) != 1: continue
            g.goal('copy operations are the defaulted deep ones (%s)' % f.type, 'yes' if ex.trivial_assign(f) else 'unknown')
    g.sub('MatrixSequence', owned); g.sub('MapMatrixSequence', mapped); g.sub('MatrixSequence copies', copies)

# ---------------------------------------------------------------- operators
OPS = ('gemvH', 'gemvG', 'gemvGT', 'gemvA', 'gemvAT')
AXPY = ('axpyf', 'axpyh', 'axpyb')

def op_runs(g, ex, st, addr, nm, nx, ny):
    """(case, post state, x, y, a, b) of every normal outcome of an operator, plus the frame goals"""
    x, y = vletter('x', nx), vletter('y', ny)
    cases = [('b!=0', S.sym('b')), ('b=0', S.c(0))] if nm in OPS else [('', None)]
    for ctag, b in cases:
        s = st.copy()
        if ctag == 'b!=0': s.assume(bnot(req(b, 0)))
        vec_obj(ex, s, ('x',), nx, x); vec_obj(ex, s, ('y',), ny, y)
        a = S.sym('a')
        args = [ML(('x',)), a, b, Ptr(('y',))] if b is not None else [a, Ptr(('y',))]
        n = 0
        for s2, o in call(ex, s, addr, nm, args):
            if o[0] == 'throw':
                g.fact('%s never throws on conforming operands' % ctag, s2.facts, FALSE); continue
            n += 1
            d = changed(s, s2, (('y',),))
            g.goal('%s writes nothing but y' % ctag, not d, str(d))
            dd = s2.cells[('y',)]
            g.fact('%s y keeps its size' % ctag, s2.facts, band(ieq(dd.rows, ny), ieq(dd.cols, 1)))
            yield ctag, s2, x, y, a, (b if b is not None else S.c(1))
        g.goal('%s has a normal outcome' % ctag, n > 0)

def ops_dense(g):
    ex = g.ex
    base = St(); D = None
    def build():
        nonlocal D
        D = Dense(ex, base)
        v = None
        for s, o in call(ex, base, D.addr, 'ForcingNorm', []):
            v = toS(ex.load(s, o[1]))
            n2 = lambda m: m_norm2(m) * m_norm2(m)
            g.sca('forcing norm is |(f,h,b)|', s.facts, v, s_sqrt(n2(D.b) + n2(D.f) + n2(D.h)))
    g.sub('DenseData', build)
    if D is None: return
    spec = dict(gemvH=(D.H, D.nz, D.nz), gemvG=(D.G, D.nz, D.nl), gemvGT=(D.G.T(), D.nl, D.nz), gemvA=(D.A, D.nz, D.nv), gemvAT=(D.A.T(), D.nv, D.nz),
                axpyf=(D.f, D.nz, D.nz), axpyh=(D.h, D.nl, D.nl), axpyb=(D.b, D.nv, D.nv))
    for nm in OPS + AXPY:
        def one_():
            M, nx, ny = spec[nm]
            for tag, s, x, y, a, b in op_runs(g, ex, base, D.addr, nm, nx, ny):
                got = ex.read_reg(s, ('y',), Region(None, 0, 0, ny, 1, ny))
                want = (M * x).scale(a) + y.scale(b) if nm in OPS else y + M.scale(a)
                if b is not None and b.const() == 0:
                    g.goal('b=0: the old y is not read', not any(q.name == 'y' for q in got.bases() | got.risk), repr(got))
                g.mat('%s y = a*M*x + b*y' % tag, s.facts, got, want.with_(risk=frozenset()))
        g.sub('DenseData::' + nm, one_)

def stage_rows(m, nm, part):
    """documented block rows of M*x: list of (first stage, last stage, f(stage, x)); x is a vector or a reader (offset in block, stage, size, block width)"""
    nx, nu, nc, N = m.nx, m.nu, m.nc, m.N
    w = nx + nu
    def R_(x): return x if callable(x) else lambda off, k, n, wd: m_block(x, toP(k) * wd + off, 0, n, 1)
    zx = lambda x, k: R_(x)(P.c(0), k, nx, w)
    zu = lambda x, k: R_(x)(nx, k, nu, w)
    lx = lambda x, k: R_(x)(P.c(0), k, nx, nx)
    vx = lambda x, k: R_(x)(P.c(0), k, nc, nc)
    T = lambda q: q.T()
    M = m.m; z = P.c(0)
    if nm == 'gemvH':
        if part == 'x': return [(z, N, lambda i, x: M('Q', i) * zx(x, i) + T(M('S', i)) * zu(x, i))]
        return [(z, N, lambda i, x: M('S', i) * zx(x, i) + M('R', i) * zu(x, i))]
    if nm == 'gemvA': return [(z, N, lambda i, x: M('E', i) * zx(x, i) + M('L', i) * zu(x, i))]
    if nm == 'gemvAT': return [(z, N, lambda i, x: T(M('E' if part == 'x' else 'L', i)) * vx(x, i))]
    if nm == 'gemvG':
        return [(z, z, lambda i, x: -zx(x, i)), (P.c(1), N, lambda i, x: M('A', i - 1) * zx(x, i - 1) + M('B', i - 1) * zu(x, i - 1) - zx(x, i))]
    if nm == 'gemvGT':
        if part == 'x': return [(z, N - 1, lambda i, x: -lx(x, i) + T(M('A', i)) * lx(x, i + 1)), (N, N, lambda i, x: -lx(x, i))]
        return [(z, N - 1, lambda i, x: T(M('B', i)) * lx(x, i + 1)), (N, N, lambda i, x: Mat.zero(nu, P.c(1)))]
    if nm == 'axpyf': return [(z, N, lambda i, x: M('q', i) if part == 'x' else M('r', i))]
    if nm == 'axpyh': return [(z, z, lambda i, x: -m.x0), (P.c(1), N, lambda i, x: -M('c', i - 1))]
    if nm == 'axpyb': return [(z, N, lambda i, x: -M('d', i))]
    raise KeyError(nm)

def stage_spec(m, nm, i, part, x, a):
    """(condition on the stage i, block row of a*M*x)"""
    return [(ieq(i, lo) if lo is hi else band(ile(lo, i), ile(i, hi)), f(lo if lo is hi and lo.const() is not None else i, x).scale(a)) for lo, hi, f in stage_rows(m, nm, part)]

def out_parts(m, nm):
    w = m.nx + m.nu
    if nm in ('gemvH', 'gemvGT', 'gemvAT', 'axpyf'): return m.nz, (('x', w, P.c(0), m.nx), ('u', w, m.nx, m.nu))
    if nm in ('gemvG', 'axpyh'): return m.nl, (('', m.nx, P.c(0), m.nx),)
    return m.nv, (('', m.nc, P.c(0), m.nc),)

def ops_mpc(g):
    ex = g.ex
    base = St(); m = None
    def build():
        nonlocal m
        m = Mpc(ex, base)
        for s, o in call(ex, base, m.addr, 'ForcingNorm', []):
            v = toS(ex.load(s, o[1])); k = P.sym('k')
            n2 = lambda q: m_norm2(q) * m_norm2(q)
            t = n2(m.m('q', k)) + n2(m.m('r', k)) + n2(m.m('d', k))
            # the h part: x0 at stage 0 and c(k-1) after
            h1 = s_sum('k', n2(m.m('q', k)), P.c(0), m.N + 1) + s_sum('k', n2(m.m('r', k)), P.c(0), m.N + 1) + s_sum('k', n2(m.m('d', k)), P.c(0), m.N + 1)
            hs = [s_sum('k', s_ite(ieq(k, 0), n2(m.x0), n2(m.m('c', k - 1))), P.c(0), m.N + 1),
                  n2(m.x0) + s_sum('k', n2(m.m('c', k)), P.c(0), m.N), n2(m.x0) + s_sum('k', n2(m.m('c', k - 1)), P.c(1), m.N + 1)]
            r = [v is s_sqrt(h1 + h) for h in hs]
            g.goal('forcing norm is |(f,h,b)|', 'yes' if any(r) else 'no', repr(v))
    g.sub('MpcData', build)
    if m is None: return
    sizes = dict(gemvH=m.nz, gemvG=m.nz, gemvGT=m.nl, gemvA=m.nz, gemvAT=m.nv, axpyf=m.nz, axpyh=m.nl, axpyb=m.nv)
    for nm in OPS + AXPY:
        def one_():
            ny, parts = out_parts(m, nm)
            for tag, s, x, y, a, b in op_runs(g, ex, base, m.addr, nm, sizes[nm], ny):
                i = P.sym('i')
                for part, w, off, n in parts:
                    for c, v in stage_spec(m, nm, i, part, x, a):
                        f = s.facts + (c.a if c.k == 'and' else (c,))
                        reg = Region(None, off, i, n, 1, w)
                        try: got = s.bufs[('y',)].read(f, reg)
                        except PartialRead as e: g.goal('%s block %s readable' % (tag, part), 'unknown', str(e)[:300]); continue
                        if b.const() == 0 : g.goal('%s%s: the old y is not read' % (tag, part), not any(q.name == 'y' for q in got.bases() | got.risk), repr(got)[:300])
                        want = v + m_block(y, i * w + off, 0, n, 1).scale(b)
                        g.mat('%s %s block %r of y = a*M*x + b*y' % (tag, part, c), f, got, want.with_(risk=frozenset()))
        g.sub('MpcData::' + nm, one_)

def mpc_contracts(ex, m, cls='fbstab::MpcData'):
    """the operators of MpcData, stage by stage as documented (proved in ops_mpc)"""
    sizes = dict(gemvH=m.nz, gemvG=m.nz, gemvGT=m.nl, gemvA=m.nz, gemvAT=m.nv)
    def contract(nm):
        ny, parts = out_parts(m, nm)
        def h(ex, st, this, vals, node):
            if nm in OPS: xa, a, b, y = vals
            else: xa, (a, y), b = None, vals, S.c(1)
            a = toS(ex.num(ex.load(st, a))); b = toS(ex.num(ex.load(st, b)))
            y = ex.load(st, y)
            if isinstance(y, NullP): ex._rec('null', node, '%s: y is not null' % nm, 'no'); raise Infeasible()
            yv = ex.view(st, ex.deref(st, y, node))
            ex.oblige(st, 'size', ieq(yv.rows, ny), node, '%s: y has the size of the operator' % nm)
            if yv.reg.idx is not None or yv.reg.off().t: raise Unsupported('operator on a sub-vector')
            reader = None
            if xa is not None:
                xv = ex.view(st, xa)
                ex.oblige(st, 'size', ieq(xv.rows, sizes[nm]), node, '%s: x has the size of the operator' % nm)
                if xv.buf == yv.buf: ex._rec('alias', node, '%s: x and y are different vectors' % nm, 'no'); raise Unsupported('aliased operator arguments')
                if xv.reg.idx is not None or xv.reg.off().t: raise Unsupported('operator on a sub-vector')
                xb = st.bufs[xv.buf]
            zero = b.const() == 0 or (b.const() is None and ex.decide(st, req(b, 0)))
            old = st.bufs[yv.buf]; new = old
            for part, w, off, n in parts:
                todo = [(lo, hi, f, 0) for lo, hi, f in stage_rows(m, nm, part)]
                while todo:
                    lo, hi, f, depth = todo.pop(0)
                    if not smt.feasible(tuple(st.facts) + (ile(lo, hi),)): continue
                    if lo is hi: k, facts, binder = lo, tuple(st.facts), None
                    else:
                        I = fresh('k'); k = P.sym(I); facts = tuple(st.facts) + (ile(lo, k), ile(k, hi)); binder = (I, lo, hi + 1)
                    rd = lambda o, kk, q, wd: xb.read(facts, Region(None, o, kk, q, 1, wd))
                    reg = Region(None, off, k, n, 1, w)
                    try:
                        v = f(k, rd if xa is not None else None).scale(a)
                        if not zero: v = v + old.read(facts, reg).scale(b)
                    except PartialRead as e:
                        # the operand is defined differently at the ends of the range
                        if depth >= 2 or lo is hi: raise Unsupported(str(e))
                        cut = (hi, lo)[depth]
                        todo[:0] = [(lo, hi - 1, f, depth + 1), (hi, hi, f, 2)] if depth == 0 else [(lo, lo, f, 2), (lo + 1, hi, f, 2)]
                        continue
                    new = new.write(st.facts, reg, v, binder) if binder else new.write(st.facts, reg, v)
            st.bufs[yv.buf] = new
            return None
        return h
    for nm in OPS + AXPY: ex.contracts[(cls, nm)] = contract(nm)

