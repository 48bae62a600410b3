"""Run-time values of the symbolic executor."""
from .core import *
from .buf import *

class Val:
    def key(s): return None
    def __eq__(s, o): return type(s) is type(o) and s.key() == o.key()
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash((type(s).__name__, s.key()))

class Ptr(Val):            # pointer to an object or cell
    def __init__(s, addr, null=FALSE): s.addr, s.null = addr, null
    def key(s): return (s.addr, s.null)
    def __repr__(s): return '&%s' % (s.addr,)
class DPtr(Val):           # pointer into double storage
    def __init__(s, buf, off=None, null=FALSE): s.buf, s.off, s.null = buf, P.c(0) if off is None else off, null
    def key(s): return (s.buf, s.off, s.null)
class NullP(Val):
    def key(s): return ()
    null = TRUE
    addr = None
class Str(Val):
    def __init__(s, t): s.t = t
    def key(s): return s.t
class Opaque(Val):
    def __init__(s, what): s.what = what
    def key(s): return s.what
class FnRef(Val):
    def __init__(s, node): s.node = node
    def key(s): return id(s.node)

class LV(Val):             # scalar/pointer cell
    def __init__(s, addr): s.addr = addr
    def key(s): return s.addr
class OL(Val):             # class object
    def __init__(s, addr): s.addr = addr
    def key(s): return s.addr
class ML(Val):             # Eigen matrix object (or element idx of a vector of them)
    def __init__(s, addr, idx=None): s.addr, s.idx = addr, idx
    def key(s): return (s.addr, s.idx)
class ER(Val):             # scalar element of storage
    def __init__(s, buf, reg): s.buf, s.reg = buf, reg
    def key(s): return (s.buf, s.reg.key())

class MO(Val):             # cell value of a matrix object: dimensions
    def __init__(s, rows, cols, vec, fixed=False): s.rows, s.cols, s.vec, s.fixed = toP(rows), toP(cols), vec, fixed
    def key(s): return (s.rows, s.cols, s.vec, s.fixed)
class VO(Val):             # cell value of std::vector<Matrix>
    def __init__(s, size, rows, cols, vec, dimstate=None): s.size, s.rows, s.cols, s.vec, s.dimstate = size, rows, cols, vec, dimstate
    def key(s): return (s.size, s.rows, s.cols, s.vec, s.dimstate)
class DV(Val):             # cell value of std::vector<double> / std::array<double,N>
    def __init__(s, size): s.size = toP(size)
    def key(s): return s.size
class PA(Val):             # cell value of an array of pointers; the elements are cells of their own
    def __init__(s, size): s.size = toP(size)
    def key(s): return s.size
class LD(Val):             # LDLT / LLT object
    def __init__(s, what, kbuf=None, kreg=None, site=None, ok=None, n=None):
        s.what, s.kbuf, s.kreg, s.site, s.ok, s.n = what, kbuf, kreg, site, ok, n
    def key(s): return (s.what, id(s.kbuf), None if s.kreg is None else s.kreg.key(), s.site, s.ok)

class View(Val):           # Map/Block/Ref/VectorXd as storage view
    def __init__(s, buf, reg, const=False, resizable=None):
        s.buf, s.reg, s.const, s.resizable = buf, reg, const, resizable
    rows = property(lambda s: s.reg.rows)
    cols = property(lambda s: s.reg.cols)
    def key(s): return (s.buf, s.reg.key())
    def __repr__(s): return 'View(%s,%r)' % (s.buf, s.reg)

class E(Val):              # lazy Eigen expression
    def __init__(s, k, a, rows, cols): s.k, s.a, s.rows, s.cols = k, a, toP(rows), toP(cols)
    def key(s): return (s.k, s.a, s.rows, s.cols)
class Comma(Val):          # comma initialiser in progress: target, view, next row/column, height of the current block row
    def __init__(s, b, w, i, j, h): s.b, s.w, s.i, s.j, s.h = b, w, i, j, h
    def key(s): return (s.b, s.w, s.i, s.j, s.h)
class NA(Val):             # noalias wrapper
    def __init__(s, v): s.v = v
    def key(s): return s.v
class TV(Val):             # triangularView
    def __init__(s, v, mode, T=False): s.v, s.mode, s.T = v, mode, T
    def key(s): return (s.v, s.mode, s.T)
class Iter(Val):
    def __init__(s, c, at): s.c, s.at = c, at
    def key(s): return (s.c, s.at)
class IterVal(Val):        # iterator whose target value is known
    def __init__(s, v): s.v = v
    def key(s): return s.v

class Def(Val):
    """definitional fact: kind in chol|rec|elem|ldlt|snap ; binders = tuple of (name, lo, hi)"""
    def __init__(s, kind, data, binders=()): s.kind, s.data, s.binders = kind, data, tuple(binders)
    def key(s): return (s.kind, s.data, s.binders)
    def subst(s, sub): return Def(s.kind, tuple(subst_any(x, sub) for x in s.data), s.binders)
    def __repr__(s): return 'Def(%s,%s,%s)' % (s.kind, s.data, s.binders)

def subst_any(x, sub):
    """substitute integer symbols everywhere in a runtime value"""
    if isinstance(x, (P, S, B, Mat, Base)): return subst_i(x, sub)
    if isinstance(x, tuple): return tuple(subst_any(y, sub) for y in x)
    if isinstance(x, Region): return x.subst(sub)
    if isinstance(x, View): return View(x.buf, x.reg.subst(sub), x.const, x.resizable)
    if isinstance(x, ER): return ER(x.buf, x.reg.subst(sub))
    if isinstance(x, ML): return ML(x.addr, None if x.idx is None else x.idx.subst(sub))
    if isinstance(x, DPtr): return DPtr(x.buf, x.off.subst(sub), subst_i(x.null, sub))
    if isinstance(x, Def): return Def(x.kind, tuple(subst_any(y, sub) for y in x.data), x.binders)
    if isinstance(x, Buf): return subst_buf(x, sub)
    return x

def subst_buf(b, sub):
    base = b.base
    if isinstance(base, Mat): base = base.subst_i(sub)
    log = tuple(W(e.reg.subst({k: v for k, v in sub.items() if k != e.b}),
                  subst_i(e.val, {k: v for k, v in sub.items() if k != e.b}),
                  e.b, None if e.lo is None else e.lo.subst(sub), None if e.hi is None else e.hi.subst(sub)) for e in b.log)
    return Buf(b.name, base, log, b.vec)

# replacing letters by values --------------------------------------------------
def rw_letter(l, f):
    """f(base, idx...) -> Mat or None for whole 'b' letters of a base"""
    k = l[0]
    if k == 'b':
        m = f(l[1])
        if m is None: return None
        try:
            if l[3] is l[1].rows and l[4] is l[1].cols and not l[2].t: x = m
            elif l[4].const() == 1 and l[1].cols.const() == 1: x = m_block(m, l[2], 0, l[3], 1)
            else: x = base_read(m, Region(None, l[2], 0, l[3], l[4], l[5]))
        except Unsupported: return None
        return x.T() if l[6] else x
    if k == 'i':
        m = rw_letter(l[1], f)
        if m is None: return None
        return m_inv(m)
    if k in ('d', 'e'):
        b = rw_S(l[1], f)
        if b is l[1]: return None
        if k == 'd': return diag_from_body(b, l[2])
        v = vec_from_body(b, l[2])
        return v.T() if l[3] else v
    if k == 's':
        m = rw_letter(l[1], f)
        if m is None: return None
        return m_block(m, *l[2:])
    return None

def m_inv(m):
    if len(m.t) == 1:
        (w, c), = m.t.items()
        if not w: return Mat(m.rows, m.cols, {(): s_inv(c)})
        if len(w) == 1:
            l = w[0]
            return Mat(m.rows, m.cols, {((l[1] if l[0] == 'i' else ('i', l)),): s_inv(c)})
    raise Unsupported('inverse of %r' % (m,))

def rw_S(s, f):
    def g(a):
        if not a.bases: return None
        ar = tuple(rw_any(x, f, a) for x in a.args)
        if a.kind == 'elem':
            w = a.args[0]
            m = rw_word(w, f)
            if m is None: return None
            return m_elem(m, a.args[1])
        if ar == a.args: return None
        from .core import rebuild
        return rebuild(a.kind, ar)
    return s.map_atoms(g)

def rw_any(x, f, a=None):
    if isinstance(x, S): return rw_S(x, f)
    if isinstance(x, Mat): return rw_mat(x, f)
    if isinstance(x, B):
        if not x.bases(): return x
        return mkB(x.k, *tuple(rw_any(y, f) for y in x.a))
    return x

def rw_word(w, f):
    ms = [rw_letter(l, f) for l in w]
    if all(m is None for m in ms): return None
    r = None
    for l, m in zip(w, ms):
        m = Mat.letter(l) if m is None else m.with_(valid='full')
        r = m if r is None else r * m
    return r

def rw_mat(m, f):
    """rewrite every occurrence of bases for which f gives a value"""
    out = Mat(m.rows, m.cols, {}, m.valid, m.risk); ch = False
    for w, c in m.t.items():
        c2 = rw_S(c, f)
        x = rw_word(w, f) if w else None
        if x is None and c2 is c:
            out = out + Mat(m.rows, m.cols, {w: c}, m.valid); continue
        ch = True
        if x is None: x = Mat(m.rows, m.cols, {w: S.c(1)})
        out = out + x.scale(c2).with_(valid=m.valid)
    return out.with_(valid=m.valid) if ch else m
