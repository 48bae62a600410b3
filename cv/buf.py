"""Storage: regions of buffers, write logs, reads.

A buffer is a flat column-major block of doubles, or an indexed family of them
(std::vector<MatrixXd>).  Its content is a base value plus a log of writes; a
write may be a family  for all b in [lo,hi):  region(b) := value(b).
Reads are resolved by proving regions equal, contained or disjoint.
"""
from .core import *
from . import smt

class Region:
    __slots__ = ('idx', 'r0', 'c0', 'rows', 'cols', 'ld')
    def __init__(s, idx, r0, c0, rows, cols, ld):
        s.idx = None if idx is None else toP(idx)
        r0, c0, rows, cols, ld = map(toP, (r0, c0, rows, cols, ld))
        if cols.const() == 1 and c0.t and False: pass
        s.r0, s.c0, s.rows, s.cols, s.ld = r0, c0, rows, cols, ld
    def key(s): return (s.idx, s.r0, s.c0, s.rows, s.cols, s.ld)
    def off(s): return s.r0 + s.c0 * s.ld
    def contig(s): return s.cols.const() == 1 or (not s.r0.t and s.rows is s.ld) or s.rows is s.ld
    def length(s): return s.rows * s.cols
    def subst(s, sub):
        return Region(None if s.idx is None else s.idx.subst(sub), *(x.subst(sub) for x in (s.r0, s.c0, s.rows, s.cols, s.ld)))
    def syms(s):
        r = set()
        for x in s.key():
            if x is not None: r |= x.syms()
        return r
    def __repr__(s):
        return '%s(%r,%r) %rx%r/%r' % ('' if s.idx is None else '[%r]' % s.idx, s.r0, s.c0, s.rows, s.cols, s.ld)

def pv(facts, g): return smt.prove(facts, g, 1500)

def peq(facts, a, b):
    if a is b: return True
    d = (a - b).const()
    if d is not None: return d == 0
    return pv(facts, ieq(a, b))

def same(f, a, b):
    if a.key() == b.key(): return True
    if (a.idx is None) != (b.idx is None): return False
    if a.idx is not None and not peq(f, a.idx, b.idx): return False
    if not peq(f, a.rows, b.rows) or not peq(f, a.cols, b.cols): return False
    if peq(f, a.ld, b.ld) and peq(f, a.r0, b.r0) and peq(f, a.c0, b.c0): return True
    if not peq(f, a.off(), b.off()): return False
    return a.cols.const() == 1 or peq(f, a.ld, b.ld)

def _sep(f, a0, an, b0, bn):
    """[a0,a0+an) and [b0,b0+bn) provably disjoint"""
    g1, g2 = ile(a0 + an, b0), ile(b0 + bn, a0)
    if g1 is TRUE or g2 is TRUE: return True
    if g1 is FALSE and g2 is FALSE: return False
    if pv(f, g1) or pv(f, g2): return True
    return pv(f, bor(g1, g2))

def disjoint(f, a, b):
    if a.idx is not None and b.idx is not None:
        d = (a.idx - b.idx).const()
        if d is not None:
            if d: return True
        elif pv(f, bnot(ieq(a.idx, b.idx))): return True
    if not a.length().t or not b.length().t: return True
    if a.key() == b.key():
        return pv(f, ile(a.length(), 0))
    if peq(f, a.ld, b.ld):
        if _sep(f, a.c0, a.cols, b.c0, b.cols): return True
        if _sep(f, a.r0, a.rows, b.r0, b.rows) and not (a.rows is a.ld or b.rows is b.ld): return True
    if a.contig() and b.contig():
        if _sep(f, a.off(), a.length(), b.off(), b.length()): return True
        if _sep_stride(f, a, b): return True
    return False

def _sep_stride(f, a, b):
    """a = c*p + [da, da+la), b = c*q + [db, db+lb) with both intervals inside [0,c): disjoint when p differs from q or the
    intervals are"""
    oa, ob = a.off(), b.off(); la, lb = a.length(), b.length()
    cs = []
    for o in (oa, ob):
        for m in o.t:
            for x in m:
                r = o.coeff_of(x)
                if r is not None and r[0].const() is None and r[0] not in cs: cs.append(r[0])
    def splits(o, c):
        out = []
        for m in o.t:
            for x in m:
                r = o.coeff_of(x)
                if r is not None and r[0] is c: out.append((P.sym(x), r[1]))
        q = _quot(o, c)
        if q is not None: out.append((q, o - q * c))
        if not out: out.append((P.c(0), o))
        return [(q, d) for q, d in dict.fromkeys(out)]
    for c in cs[:4]:
        for p, da in splits(oa, c):
            if not pv(f, band(ile(0, da), ile(da + la, c))): continue
            for q, db in splits(ob, c):
                if p is q: continue
                if pv(f, band(ile(0, db), ile(db + lb, c))) and pv(f, bor(bnot(ieq(p, q)), ile(da + la, db), ile(db + lb, da))): return True
    return False

def contained(f, a, b):
    """region b inside region a: returns ('blk', dr, dc) or ('flat', off) or None"""
    if (a.idx is None) != (b.idx is None): return None
    if a.idx is not None and not peq(f, a.idx, b.idx): return None
    if peq(f, a.ld, b.ld):
        dr, dc = b.r0 - a.r0, b.c0 - a.c0
        if all(pv(f, g) for g in (ile(0, dr), ile(0, dc), ile(dr + b.rows, a.rows), ile(dc + b.cols, a.cols))):
            return ('blk', dr, dc)
    if a.contig() and b.contig():
        d = b.off() - a.off()
        if pv(f, ile(0, d)) and pv(f, ile(d + b.length(), a.length())): return ('flat', d)
    return None

class W:
    """log entry; binder is None or the name of the bound integer, range [lo,hi)"""
    __slots__ = ('b', 'lo', 'hi', 'reg', 'val')
    def __init__(s, reg, val, b=None, lo=None, hi=None):
        s.reg, s.val, s.b, s.lo, s.hi = reg, val, b, lo, hi
    def __repr__(s):
        return '%s%r := %r' % ('' if s.b is None else 'for %s in [%r,%r): ' % (s.b, s.lo, s.hi), s.reg, s.val)

class PartialRead(Unsupported):
    def __init__(s, msg, buf=None): Unsupported.__init__(s, msg); s.buf = buf

class Buf:
    """immutable; write returns a new Buf"""
    __slots__ = ('name', 'base', 'log', 'vec')
    def __init__(s, name, base, log=(), vec=False):
        # base: Mat (whole storage) or callable idx->Mat when vec
        s.name, s.base, s.log, s.vec = name, base, log, vec

    def write(s, f, reg, val, binder=None):
        w = W(reg, val) if binder is None else W(reg, val, *binder)
        log = s.log
        if binder is None:
            keep = []
            for e in log:
                if e.b is None and (e.reg.key() == reg.key() or contained(f, reg, e.reg)): continue
                keep.append(e)
            log = tuple(keep)
        return Buf(s.name, s.base, log + (w,), s.vec)

    def read(s, f, reg):
        return s._read(f, reg, len(s.log))

    def _read(s, f, reg, n):
        for k in range(n - 1, -1, -1):
            e = s.log[k]
            if e.b is None:
                if same(f, e.reg, reg): return fit(e.val, reg)
                c = contained(f, e.reg, reg)
                if c is not None: return sub_value(e.val, e.reg, c, reg)
                if disjoint(f, e.reg, reg): continue
                raise PartialRead('read of %s%r overlaps the write %r' % (s.name, reg, e.reg), s)
            # family: find the member
            r = s.member(f, e, reg)
            if r is not None: return r
            b2 = fresh(e.b)
            f2 = tuple(f) + (ile(e.lo, P.sym(b2)), ilt(P.sym(b2), e.hi))
            if disjoint(f2, e.reg.subst({e.b: P.sym(b2)}), reg): continue
            r = s.cover(f, e, reg)
            if r is not None: return r
            r = s.diagonal(f, e, reg, k)
            if r is not None: return r
            raise PartialRead('read of %s%r overlaps the family %r' % (s.name, reg, e), s)
        if s.vec:
            return base_read(s.base(reg.idx), reg)
        return base_read(s.base, reg)

    def member(s, f, e, reg):
        cands = []
        def solve(x, y):
            c = x.coeff_of(e.b)
            if c is None or not c[0].t: return
            q = (y - c[1]).div_exact(c[0])
            if q is not None: cands.append(q)
        er = e.reg
        if er.idx is not None and reg.idx is not None: solve(er.idx, reg.idx)
        if er.ld is reg.ld:
            solve(er.c0, reg.c0); solve(er.r0, reg.r0)
        if er.contig() and reg.contig():
            solve(er.off(), reg.off())
            # quotient part: off = q*len + rest
            c = er.off().coeff_of(e.b)
            if c is not None and c[0].t:
                d = reg.off() - c[1]
                for m in list(d.t):
                    q = P({m: d.t[m]}).div_exact(c[0])
                    if q is not None: cands.append(q)
                q = _quot(d, c[0])
                if q is not None: cands.append(q)
        seen = set()
        for q in cands:
            if q in seen: continue
            seen.add(q)
            if not (pv(f, ile(e.lo, q)) and pv(f, ilt(q, e.hi))): continue
            er = e.reg.subst({e.b: q})
            if same(f, er, reg): return fit(subst_i(e.val, {e.b: q}), reg)
            c = contained(f, er, reg)
            if c is not None: return sub_value(subst_i(e.val, {e.b: q}), er, c, reg)
        return None

    def cover(s, f, e, reg):
        """reg (contiguous column) covered by a family of single elements"""
        er = e.reg
        if er.rows.const() != 1 or er.cols.const() != 1 or not reg.contig(): return None
        if (er.idx is None) != (reg.idx is None): return None
        if er.idx is not None and not peq(f, er.idx, reg.idx): return None
        c = er.off().coeff_of(e.b)
        if c is None or c[0].const() != 1: return None
        a = reg.off() - c[1]
        if not (pv(f, ile(e.lo, a)) and pv(f, ile(a + reg.length(), e.hi))): return None
        body = m_elem(e.val, P.c(0)).subst_i({e.b: a + PJ})
        v = vec_from_body(body, reg.length())
        if reg.cols.const() == 1: return v
        return m_reshape(v, reg.rows, reg.cols)

    def diagonal(s, f, e, reg, k):
        """a square block whose diagonal was written element by element over a zero block"""
        er = e.reg; b = e.b
        if s.vec or er.rows.const() != 1 or er.cols.const() != 1 or not peq(f, er.ld, reg.ld) or not peq(f, reg.rows, reg.cols): return None
        cr, cc = er.r0.coeff_of(b), er.c0.coeff_of(b)
        if cr is None or cc is None or cr[0].const() != 1 or cc[0].const() != 1: return None
        if not (peq(f, cr[1] + e.lo, reg.r0) and peq(f, cc[1] + e.lo, reg.c0) and peq(f, e.hi - e.lo, reg.rows)): return None
        below = s._read(f, reg, k)
        if below.t or below.risk or below.valid != 'full': return None
        v = vec_from_body(m_elem(e.val, P.c(0)).subst_i({b: PJ + e.lo}), reg.rows)
        return m_diag(v).with_(rows=reg.rows, cols=reg.cols)

def _quot(d, c):
    """polynomial part of d/c by leading terms (c may be a sum)"""
    ld = max(c.t, key=lambda m: (len(m), m)); q = P.c(0)
    r = d
    for _ in range(10):
        hit = False
        for m in sorted(r.t, key=lambda m: (-len(m), m)):
            rest = list(m); ok = True
            for x in ld:
                if x in rest: rest.remove(x)
                else: ok = False; break
            if ok and ld and r.t[m] % c.t[ld] == 0:
                t = P({tuple(rest): r.t[m] // c.t[ld]})
                q = q + t; r = r - t * c; hit = True; break
        if not hit: break
    return q if q.t else None

def fit(m, reg):
    if m.rows is reg.rows and m.cols is reg.cols: return m
    try: return m_reshape(m, reg.rows, reg.cols)
    except Unsupported: return m.with_(rows=reg.rows, cols=reg.cols)

def sub_value(val, er, c, reg):
    if c[0] == 'blk':
        return m_block(val, c[1], c[2], reg.rows, reg.cols)
    v = m_flat_slice(val, c[1], reg.length())
    return v if reg.cols.const() == 1 else m_reshape(v, reg.rows, reg.cols)

def base_read(base, reg):
    """region of the whole-storage value `base`"""
    if reg.rows is base.rows and reg.cols is base.cols and not reg.r0.t and not reg.c0.t: return base
    if reg.ld is base.rows and base.cols.const() != 1:
        return m_block(base, reg.r0, reg.c0, reg.rows, reg.cols)
    if reg.cols.const() == 1 or reg.ld is reg.rows:
        v = m_flat_slice(base, reg.off(), reg.length())
        return v if reg.cols.const() == 1 else m_reshape(v, reg.rows, reg.cols)
    out = Mat(reg.rows, reg.cols, {}, 'full', base.risk)
    for w, c in base.t.items():
        if len(w) == 1 and w[0][0] == 'b' and not w[0][6]:
            l = w[0]
            out = out + Mat.letter(mk_b(l[1], l[2] + reg.off(), reg.rows, reg.cols, reg.ld)).scale(c)
        else: raise Unsupported('strided view of an expression')
    return out
