"""Symbolic worlds: objects built by running the real constructors."""
from .loops import *
from .exec import Infeasible

def paths(ex, st, f):
    """all outcomes of f(state)"""
    return ex.explore(st, f)

def one(ex, st, f, what='construction'):
    """the single normal outcome"""
    o = ex.explore(st, f)
    ok = [x for x in o if x[1][0] == 'val']
    if len(ok) != 1 or len(o) != 1: raise Unsupported('%s: %d outcomes %s' % (what, len(o), [x[1] for x in o][:3]))
    st.become(o[0][0])
    return o[0][1][1]

def newobj(ex, st, addr, key, vals=()):
    """run the constructor of key on the given argument values"""
    def f(s):
        ex.construct(s, addr, key, None, [], list(vals))
    return one(ex, st, f, 'constructor of ' + key)

def ctor_with(ex, key, pat):
    """constructor whose type contains pat"""
    c = ex.p.cls[key]
    for m in c.methods.get(c.tname or key.split('::')[-1].split('<')[0], []):
        f = ex.p.fns[m]
        if f.kind == 'CXXConstructorDecl' and f.body is not None and pat in f.type: return f
    raise Unsupported('no constructor of %s with %s' % (key, pat))

def construct_f(ex, st, addr, f, vals):
    def g(s):
        s.cls[addr] = f.cls
        ex.call_fn(s, f, addr, list(vals), None)
    return one(ex, st, g, 'constructor of ' + f.cls)

def method(ex, key, name, nparams=None):
    f = ex.p.find(key, name, nparams)
    if isinstance(f, (list, tuple)):
        f = [x for x in f if x.body is not None]
        f = f[0] if f else None
    if f is None: raise Unsupported('%s::%s not found' % (key, name))
    return f

def call(ex, st, addr, name, vals, key=None):
    """outcomes of a member call"""
    f = method(ex, key or st.cls[addr], name, len(vals))
    return ex.explore(st, lambda s: ex.call_fn(s, f, addr, list(vals), None))

def vec_obj(ex, st, addr, n, m, vec=True):
    """VectorXd object with content m"""
    m = m.with_(rows=n)
    st.cells[addr] = MO(n, m.cols, vec); st.bufs[addr] = Buf(ex.aname(addr), m)
    return ML(addr)

def vletter(name, n, attr=()):
    return Mat.letter(mk_b(Base(name, n, 1, (), attr)))
def mletter(name, r, c, attr=()):
    return Mat.letter(mk_b(Base(name, r, c, (), attr)))

def sym(n): return P.sym(n)

class Mpc:
    """MpcData over symbolic stage data"""
    NAMES = ('Q', 'R', 'S', 'q', 'r', 'A', 'B', 'c', 'E', 'L', 'd')
    def __init__(s, ex, st):
        N, nx, nu, nc = map(P.sym, ('N', 'nx', 'nu', 'nc'))
        s.N, s.nx, s.nu, s.nc = N, nx, nu, nc
        for x in (N, nx, nu, nc): st.assume(ile(1, x))
        one_ = P.c(1)
        s.shape = dict(Q=(N + 1, nx, nx), R=(N + 1, nu, nu), S=(N + 1, nu, nx), q=(N + 1, nx, one_), r=(N + 1, nu, one_),
                       A=(N, nx, nx), B=(N, nx, nu), c=(N, nx, one_), E=(N + 1, nc, nx), L=(N + 1, nc, nu), d=(N + 1, nc, one_))
        s.base = {}
        for k in s.NAMES:
            l, r, c = s.shape[k]
            a = ('seq', k)
            newobj(ex, st, a, 'fbstab::MatrixSequence', (l, r, c))
            b = [x for x in st.bufs if x[:2] == a]
            if len(b) != 1: raise Unsupported('MatrixSequence storage')
            s.base[k] = Base(k, l * r * c, 1, (), {'symblk'} if k in 'QR' else ())
            st.bufs[b[0]] = Buf(k, Mat.letter(mk_b(s.base[k])))
        s.x0 = vletter('x0', nx)
        vec_obj(ex, st, ('x0',), nx, s.x0)
        f = ctor_with(ex, 'fbstab::MpcData', 'const fbstab::MatrixSequence *')
        s.addr = ('data',)
        construct_f(ex, st, s.addr, f, [Ptr(('seq', k)) for k in s.NAMES] + [Ptr(('x0',))])
        s.nz = (N + 1) * (nx + nu); s.nl = (N + 1) * nx; s.nv = (N + 1) * nc
    def m(s, k, i):
        """matrix i of sequence k as documented (column-major, consecutive)"""
        l, r, c = s.shape[k]
        i = toP(i)
        return Mat.letter(mk_b(s.base[k], i * r * c, r, c, r))

class Dense:
    """DenseData over symbolic H, f, G, h, A, b"""
    def __init__(s, ex, st, lo=(0, 0, 0), sizes=None):
        nz, nl, nv = sizes or map(P.sym, ('nz', 'nl', 'nv'))
        s.nz, s.nl, s.nv = nz, nl, nv
        for x, l in zip((nz, nl, nv), lo): st.assume(ile(l, x))
        s.H = mletter('H', nz, nz, {'sym'}); s.G = mletter('G', nl, nz); s.A = mletter('A', nv, nz)
        s.f = vletter('f', nz); s.h = vletter('h', nl); s.b = vletter('b', nv)
        for k in 'HfGhAb':
            m = getattr(s, k); vec_obj(ex, st, ('in', k), m.rows, m, m.cols.const() == 1)
        f = ctor_with(ex, 'fbstab::DenseData', 'const Eigen::Matrix<double, -1, -1> *')
        s.addr = ('data',)
        construct_f(ex, st, s.addr, f, [Ptr(('in', k)) for k in 'HfGhAb'])

def changed(st, s2, ok):
    """names of storage changed between the states, outside ok"""
    out = []
    for d1, d2 in ((st.bufs, s2.bufs), (st.cells, s2.cells)):
        for k, x in d1.items():
            if k[0] in ('tmp', 'L'): continue
            if any(k[:len(o)] == o for o in ok): continue
            y = d2.get(k)
            if y is x or y == x: continue
            out.append(k)
    return out

# ---------------------------------------------------------------- abstract problem data and the contracts of its operators
class Abs:
    """any problem data object satisfying the contract of class Data (proved for DenseData and MpcData in g_ops)"""
    def __init__(s, ex, st, lo=(1, 0, 1), sizes=None, install=True, cls='fbstab::Data', addr=('data',)):
        nz, nl, nv = sizes or map(P.sym, ('nz', 'nl', 'nv'))
        s.nz, s.nl, s.nv = map(toP, (nz, nl, nv))
        for x, l in zip((s.nz, s.nl, s.nv), lo): st.assume(ile(l, x))
        s.H = mletter('H', s.nz, s.nz, {'sym'}); s.G = mletter('G', s.nl, s.nz); s.A = mletter('A', s.nv, s.nz)
        s.f = vletter('f', s.nz); s.h = vletter('h', s.nl); s.b = vletter('b', s.nv)
        s.addr = addr; st.cls[s.addr] = cls
        s.clss = ('fbstab::Data', 'fbstab::DenseData', 'fbstab::MpcData')
        if install: s.install(ex)
    def install(s, ex, clss=None):
        ops = dict(gemvH=(s.H, s.nz, s.nz), gemvG=(s.G, s.nz, s.nl), gemvGT=(s.G.T(), s.nl, s.nz), gemvA=(s.A, s.nz, s.nv), gemvAT=(s.A.T(), s.nv, s.nz),
                   axpyf=(s.f, s.nz, s.nz), axpyh=(s.h, s.nl, s.nl), axpyb=(s.b, s.nv, s.nv))
        for c in clss or s.clss:
            for nm, (M, nx, ny) in ops.items(): ex.contracts[(c, nm)] = op_contract(nm, M, nx, ny)
            ex.contracts[(c, 'ForcingNorm')] = lambda ex, st, this, vals, node: S.sym('forcing')

def op_contract(nm, M, nx, ny):
    def h(ex, st, this, vals, node):
        if nm.startswith('gemv'): x, a, b, y = vals
        else: x, (a, y), b = None, vals, S.c(1)
        a = toS(ex.num(ex.load(st, a))); b = toS(ex.num(ex.load(st, b)))
        y = ex.load(st, y)
        if isinstance(y, NullP): ex._rec('null', node, '%s: y is not null' % nm, 'no'); raise Infeasible()
        yv = ex.view(st, ex.deref(st, y, node))
        ex.oblige(st, 'size', ieq(yv.rows, ny), node, '%s: y has the size of the operator' % nm)
        if x is not None:
            xv = ex.view(st, x if not isinstance(x, E) else x)
            ex.oblige(st, 'size', ieq(xv.rows, nx), node, '%s: x has the size of the operator' % nm)
            if xv.buf == yv.buf and not disjoint(st.facts, xv.reg, yv.reg):
                ex._rec('alias', node, '%s: x and y are different vectors' % nm, 'no'); raise Unsupported('aliased operator arguments')
            xm = ex.read_reg(st, xv.buf, xv.reg)
            v = (M * xm).scale(a)
        else: v = M.scale(a)
        st.ghost = dict(st.ghost)
        if b.const() == 0 or (b.const() is None and ex.decide(st, req(b, 0))): new = v
        else: new = v + ex.read_reg(st, yv.buf, yv.reg).scale(b)
        ex.write_reg(st, yv.buf, yv.reg, new.with_(rows=yv.rows, cols=yv.cols))
        return None
    return h

# ---------------------------------------------------------------- components
def mutated_doubles(prog, key):
    """scalar fields assigned outside constructors"""
    out = set(); c = prog.cls[key]
    def lhs(n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): n = n['inner'][0]
        if n.get('kind') == 'MemberExpr': out.add(n.get('name'))
    def go(n):
        k = n.get('kind')
        if (k == 'BinaryOperator' and n.get('opcode') == '=') or k == 'CompoundAssignOperator': lhs(n['inner'][0])
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'): lhs(n['inner'][0])
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            for x in n.get('inner', [])[1:]: lhs(x)
        for x in n.get('inner', []): go(x)
    for ms in c.methods.values():
        for m in ms:
            f = prog.fns[m]
            if f.kind == 'CXXMethodDecl' and f.body is not None: go(f.body)
    return out

def havoc_obj(ex, st, addr, before, tag):
    """forget everything a solve may have left in the object: contents and mutable scalars"""
    key = st.cls[addr]
    mut = mutated_doubles(ex.p, key)
    for k in list(st.bufs):
        if k in before and k[:len(addr)] != addr: continue
        if k in before: pass
        b = st.bufs[k]
        if k[0] == 'L' or k[0] == 'tmp': continue
        nm = 'stale:%s.%s' % (tag, ex.aname(k))
        if b.vec:
            if isinstance(b.base, Fam): st.bufs[k] = Buf(b.name, Fam(nm, b.base.rows, b.base.cols), (), True)
        elif b.base.rows.t and b.base.cols.t:
            st.bufs[k] = Buf(b.name, Mat.letter(mk_b(Base(nm, b.base.rows, b.base.cols, (), {'stale'}))))
    for k in list(st.cells):
        if k[:len(addr)] == addr and len(k) == len(addr) + 1 and k[-1] in mut:
            if isinstance(st.cells[k], S): st.cells[k] = S.sym('stale:%s.%s' % (tag, k[-1]))
            elif isinstance(st.cells[k], B): st.cells[k] = bsym('stale:%s.%s' % (tag, k[-1]))
            elif isinstance(st.cells[k], LD) : st.cells[k] = LD('stale', None, None, None, bsym('stale:%s.ok' % tag), st.cells[k].n)

def component(ex, st, key, addr, sizes, data, alpha=None, tag=None):
    tag = tag or addr[0]
    before = set(st.bufs)
    newobj(ex, st, addr, key, sizes)
    havoc_obj(ex, st, addr, before, tag)
    for nm, v in (('LinkData', Ptr(data) if data else None), ('SetAlpha', alpha)):
        if v is None: continue
        fs = [f for f in ex.p.find(key, nm, 1) or [] if f.body is not None]
        if not fs: continue
        old = st.copy()
        one(ex, st, lambda s: ex.call_fn(s, fs[0], addr, [v], None), nm)
        for k in [k for k in st.cells if k[:len(addr)] == addr and isinstance(v, Ptr) and st.cells[k] == v]: old.cells[k] = v
        kept(ex, old, st, addr, nm)
    return addr

# names a value depends on
def wsyms(w):
    out = set()
    def go(x):
        if isinstance(x, (S, B, P)): out.update(syms(x))
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(w)
    return out
_syms = {}
def syms(x):
    """names of the symbols a scalar, formula or index depends on"""
    k = _syms.get(x)
    if k is not None: return k
    out = set()
    if isinstance(x, P):
        for m in x.t:
            for s in m: out.add(s)
    elif isinstance(x, S):
        for a in x.atoms():
            if a.kind in ('sym', 'isym'): out.add(a.args[0])
            elif a.kind == 'elem':
                for b in a.bases: out.add(b.name)
            else:
                for y in a.args:
                    if isinstance(y, (S, B, P)): out |= syms(y)
                    elif isinstance(y, Mat): out |= {b.name for b in y.bases()}
    elif isinstance(x, B):
        if x.k == 'bsym': out.add(x.a[0])
        else:
            for y in x.a:
                if isinstance(y, (S, B, P)): out |= syms(y)
                elif isinstance(y, str): out.add(y)
    _syms[x] = out
    return out

def kept(ex, st, s2, addr, what):
    """object invariant: whatever is not taken to be arbitrary when a member function starts (shapes, pointers, counters) is as it was"""
    mut = mutated_doubles(ex.p, st.cls[addr]); bad = []
    for k in dict.fromkeys(list(st.cells) + list(s2.cells)):
        if k[:len(addr)] != addr: continue
        a, b = st.cells.get(k), s2.cells.get(k)
        if a is b or a == b: continue
        if isinstance(a, (S, B, LD)) and type(a) is type(b) and len(k) == len(addr) + 1 and k[-1] in mut: continue
        if isinstance(a, LD) and isinstance(b, LD): continue
        if isinstance(a, MO) and isinstance(b, MO) and (a.vec, a.fixed) == (b.vec, b.fixed) and smt.prove(s2.facts, band(ieq(a.rows, b.rows), ieq(a.cols, b.cols))): continue
        if isinstance(a, P) and isinstance(b, P) and smt.prove(s2.facts, ieq(a, b)): continue
        if isinstance(a, DV) and isinstance(b, DV) and smt.prove(s2.facts, ieq(a.size, b.size)): continue
        bad.append('.'.join(map(str, k[len(addr):])))
    ex._rec('invariant', st.cls[addr], '%s leaves the shape of the object as it was' % what, 'unknown' if bad else 'yes', ', '.join(bad))

def acc(ex, st, addr, nm):
    """storage returned by an accessor"""
    key = st.cls[addr]
    fs = [f for f in ex.p.find(key, nm, 0) if f.body is not None]
    f = next((f for f in fs if f.type.rstrip().endswith('const')), fs[0])
    s = st.copy()
    v = one(ex, s, lambda s: ex.call_fn(s, f, addr, [], None), nm)
    return ex.view(s, v)

def content(ex, st, addr, nm):
    v = acc(ex, st, addr, nm)
    return ex.read_reg(st, v.buf, v.reg)

def set_content(ex, st, addr, nm, m):
    v = acc(ex, st, addr, nm)
    st.bufs[v.buf] = Buf(st.bufs[v.buf].name, m.with_(rows=v.rows, cols=v.cols))
    return v.buf

def full_variable(ex, st, addr, D, tag, margin=False, key='fbstab::FullVariable'):
    component(ex, st, key, addr, (D.nz, D.nl, D.nv), D.addr, None, tag)
    z, l, v = vletter(tag + '.z', D.nz), vletter(tag + '.l', D.nl), vletter(tag + '.v', D.nv)
    y = D.b - D.A * z if margin else vletter(tag + '.y', D.nv)
    for nm, m in zip('zlvy', (z, l, v, y)): set_content(ex, st, addr, nm, m)
    return z, l, v, y

def unfold(st, m):
    """replace definitional element letters by their definitions"""
    defs = {d.data[0]: d.data[1] for d in st.defs if d.kind == 'elem'}
    for _ in range(12):
        if not any(b in defs for b in m.bases()): return m
        f = lambda b: vec_from_body(defs[b], b.rows) if b in defs else None
        m = rw_mat(m, f) if isinstance(m, Mat) else rw_S(m, f)
    return m
