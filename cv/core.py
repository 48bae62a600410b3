"""Symbolic value domain of the verifier.

P    integer polynomials (canonical)
S    real polynomials over atoms (canonical), each atom possibly NaN
B    boolean formulas over both
Mat  noncommutative matrix polynomials: sum of coeff(S) * word, word = tuple of letters

Everything is immutable and hash-consed, so structural equality is canonical
equality modulo the (commutative / noncommutative) ring axioms.
"""
from fractions import Fraction
import itertools

class Unsupported(Exception):
    """Construct outside the verified subset (result: undecided, never a violation)."""

class Violation(Exception):
    pass

_fresh = itertools.count(1)
def fresh(prefix='t'):
    return '%s#%d' % (prefix, next(_fresh))

# ---------------------------------------------------------------- integers
class P:
    __slots__ = ('t', '_h')
    _tab = {}
    def __new__(cls, t):
        key = frozenset(t.items())
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.t = dict(t)
            o._h = hash(('P', key))
            cls._tab[key] = o
        return o
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __deepcopy__(self, m): return self
    def __reduce__(self): return (P, (self.t,))
    @staticmethod
    def c(n): return P({(): int(n)} if n else {})
    @staticmethod
    def sym(name): return P({(name,): 1})
    def __add__(self, o):
        o = toP(o); t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v: t[m] = v
            else: t.pop(m, None)
        return P(t)
    __radd__ = __add__
    def __neg__(self): return P({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-toP(o))
    def __rsub__(self, o): return toP(o) + (-self)
    def __mul__(self, o):
        o = toP(o); t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2)); v = t.get(m, 0) + c1 * c2
                if v: t[m] = v
                else: t.pop(m, None)
        return P(t)
    __rmul__ = __mul__
    def const(self):
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def syms(self):
        return {s for m in self.t for s in m}
    def subst(self, sub):
        if not any(s in sub for m in self.t for s in m): return self
        r = P.c(0)
        for m, c in self.t.items():
            x = P.c(c)
            for s in m: x = x * (toP(sub[s]) if s in sub else P.sym(s))
            r = r + x
        return r
    def coeff_of(self, s):
        """self = a*s + b with a,b free of s; None if not linear in s."""
        a, b = {}, {}
        for m, c in self.t.items():
            k = m.count(s)
            if k == 0: b[m] = c
            elif k == 1:
                l = list(m); l.remove(s); a[tuple(l)] = c
            else: return None
        return P(a), P(b)
    def div_exact(self, d):
        """polynomial quotient q with self = q*d, or None."""
        if not d.t: return None
        if not self.t: return P.c(0)
        q = P.c(0); r = self
        key = lambda m: (len(m), m)
        ld = max(d.t, key=key)
        for _ in range(60):
            if not r.t: return q
            lr = max(r.t, key=key)
            rest = list(lr); ok = True
            for s in ld:
                if s in rest: rest.remove(s)
                else: ok = False; break
            if not ok or r.t[lr] % d.t[ld]: return None
            term = P({tuple(rest): r.t[lr] // d.t[ld]})
            q = q + term; r = r - term * d
        return None
    def __repr__(self):
        if not self.t: return '0'
        out = []
        for m, c in sorted(self.t.items()):
            s = '*'.join(m)
            out.append(('%d' % c) if not m else (s if c == 1 else '-' + s if c == -1 else '%d*%s' % (c, s)))
        return '+'.join(out).replace('+-', '-')

def toP(x):
    if isinstance(x, P): return x
    if isinstance(x, int): return P.c(x)
    raise Unsupported('not an integer: %r' % (x,))

# ---------------------------------------------------------------- atoms / reals
class Atom:
    """kind, args (hashable). Interned."""
    __slots__ = ('kind', 'args', 'id', 'isyms', 'bases', '_rep')
    _tab = {}
    _cnt = itertools.count(1)
    def __new__(cls, kind, *args):
        k = (kind, args)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.kind = kind; o.args = args; o.id = next(cls._cnt); o._rep = None
            s = set(); b = set()
            _collect(args, s, b)
            if kind == 'isym': s.add(args[0])
            if kind in ('sum', 'emax'):   # bound variable args[0]
                s.discard(args[0])
            o.isyms = frozenset(s); o.bases = frozenset(b)
            cls._tab[k] = o
        return o
    def __deepcopy__(self, m): return self
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id
    def __repr__(self):
        if self._rep is None:
            k, a = self.kind, self.args
            if k in ('sym', 'isym'): r = a[0]
            elif k == 'elem': r = '%r[%r]' % (Word(a[0]), a[1])
            elif k == 'inv': r = '1/(%r)' % (a[0],)
            else: r = '%s(%s)' % (k, ','.join(repr(x) for x in a))
            self._rep = r if len(r) < 400 else r[:400] + '...'
        return self._rep

class Word:
    def __init__(s, w): s.w = w
    def __repr__(s): return '.'.join(map(letter_repr, s.w)) if s.w else 'I'

def _collect(x, s, b):
    if isinstance(x, P): s |= x.syms()
    elif isinstance(x, S): s |= x.isyms(); b |= x.bases()
    elif isinstance(x, B): s |= x.isyms(); b |= x.bases()
    elif isinstance(x, Mat): s |= x.isyms(); b |= x.bases()
    elif isinstance(x, Base): b.add(x); _collect(x.idx, s, b); _collect((x.rows, x.cols), s, b)
    elif isinstance(x, Atom): s |= x.isyms; b |= x.bases
    elif isinstance(x, (tuple, frozenset)):
        for y in x: _collect(y, s, b)

class S:
    __slots__ = ('t', '_h', '_is', '_bs', 'nan')
    _tab = {}
    def __new__(cls, t, nan=None):
        key = frozenset(t.items())
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.t = dict(t); o._h = hash(('S', key)); o._is = None; o._bs = None
            cls._tab[key] = o
        return o
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __deepcopy__(self, m): return self
    @staticmethod
    def c(x):
        x = Fraction(x)
        return S({(): x} if x else {})
    @staticmethod
    def atom(a): return S({((a, 1),): Fraction(1)})
    @staticmethod
    def sym(name): return S.atom(Atom('sym', name))
    @staticmethod
    def ofP(p):
        r = {}
        for m, c in p.t.items():
            d = {}
            for s in m:
                a = Atom('isym', s); d[a] = d.get(a, 0) + 1
            r[_mono(d)] = Fraction(c)
        return S(r)
    def isyms(self):
        if self._is is None:
            s = set()
            for m in self.t:
                for a, _ in m: s |= a.isyms
            self._is = frozenset(s)
        return self._is
    def bases(self):
        if self._bs is None:
            s = set()
            for m in self.t:
                for a, _ in m: s |= a.bases
            self._bs = frozenset(s)
        return self._bs
    def atoms(self):
        return {a for m in self.t for a, _ in m}
    def const(self):
        if not self.t: return Fraction(0)
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def __add__(self, o):
        o = toS(o); t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v: t[m] = v
            else: t.pop(m, None)
        return S(t)
    __radd__ = __add__
    def __neg__(self): return S({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-toS(o))
    def __rsub__(self, o): return toS(o) + (-self)
    def __mul__(self, o):
        o = toS(o)
        c = o.const()
        if c is not None:
            if c == 0: return S({})
            if c == 1: return self
            return S({m: v * c for m, v in self.t.items()})
        t = {}; extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = dict(m1)
                for a, e in m2: d[a] = d.get(a, 0) + e
                fix = None
                for a in list(d):
                    if a not in d: continue
                    if a.kind == 'sqrt' and d[a] >= 2 and sum_of_squares(a.args[0]):
                        q, d[a] = divmod(d[a], 2)
                        if not d[a]: del d[a]
                        x = S.c(1)
                        for _ in range(q): x = x * a.args[0]
                        fix = x if fix is None else fix * x
                    elif a.kind == 'inv':
                        # x * 1/x cancels for a single-atom x (x != 0 is an obligation of the division)
                        x = a.args[0]
                        if len(x.t) == 1:
                            (mm, cc), = x.t.items()
                            if cc == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0] in d:
                                b = mm[0][0]; k = min(d[a], d[b])
                                for y in (a, b):
                                    d[y] -= k
                                    if not d[y]: del d[y]
                if fix is not None:
                    e = S({_mono(d): c1 * c2}) * fix
                    extra = e if extra is None else extra + e
                    continue
                m = _mono(d); v = t.get(m, 0) + c1 * c2
                if v: t[m] = v
                else: t.pop(m, None)
        r = S(t)
        return r if extra is None else r + extra
    __rmul__ = __mul__
    def subst_i(self, sub):
        """substitute integer symbols."""
        if not (self.isyms() & sub.keys()): return self
        r = S({})
        for m, c in self.t.items():
            x = S.c(c)
            for a, e in m:
                y = atom_subst_i(a, sub)
                for _ in range(e): x = x * y
            r = r + x
        return r
    def map_atoms(self, f):
        """rebuild with f(atom)->S or None (unchanged)."""
        ch = {a: f(a) for a in self.atoms()}
        if all(v is None for v in ch.values()): return self
        r = S({})
        for m, c in self.t.items():
            x = S.c(c)
            for a, e in m:
                y = ch[a] if ch[a] is not None else S.atom(a)
                for _ in range(e): x = x * y
            r = r + x
        return r
    def __repr__(self):
        if not self.t: return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: str(kv[0])):
            s = '*'.join('%r%s' % (a, '' if e == 1 else '^%d' % e) for a, e in m)
            if not m: out.append(fr(c))
            else: out.append(s if c == 1 else '-' + s if c == -1 else fr(c) + '*' + s)
        return '+'.join(out).replace('+-', '-')

def fr(c):
    if c.denominator == 1: return str(c.numerator)
    f = float(c)
    return repr(f)

def _mono(d):
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))

def sum_of_squares(s):
    return all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in s.t.items())

def toS(x):
    if isinstance(x, S): return x
    if isinstance(x, (int, Fraction)): return S.c(x)
    if isinstance(x, float): return S.c(Fraction(x))
    if isinstance(x, P): return S.ofP(x)
    raise Unsupported('not a real: %r' % (x,))

NAN = None
def nan():
    return S.atom(Atom('nan'))

def s_inv(x):
    x = toS(x); c = x.const()
    if c is not None:
        if c == 0: raise Unsupported('division by constant zero')
        return S.c(1 / c)
    if len(x.t) == 1:   # single monomial: invert factors
        (m, c), = x.t.items()
        r = S.c(1 / c)
        for a, e in m:
            y = a.args[0] if a.kind == 'inv' else S.atom(Atom('inv', S.atom(a)))
            for _ in range(e): r = r * y
        return r
    # normalise the leading coefficient
    lead = min(x.t, key=lambda m: tuple((a.id, e) for a, e in m))
    c = x.t[lead]
    return S.atom(Atom('inv', x * S.c(1 / c))) * S.c(1 / c)
def s_div(a, b): return toS(a) * s_inv(b)
def s_sqrt(x):
    x = toS(x); c = x.const()
    if c is not None and c >= 0:
        n, d = c.numerator, c.denominator
        import math
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d: return S.c(Fraction(rn, rd))
    if len(x.t) == 1:   # sqrt(norm^2) = norm
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 2 and m[0][0].kind in ('norm2', 'sqrt', 'abs'):
            return S.atom(m[0][0])
    return S.atom(Atom('sqrt', x))
def s_max(a, b):
    """std::max(a,b): (a<b)?b:a"""
    a, b = toS(a), toS(b)
    if a is b: return a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None: return S.c(max(ca, cb))
    return S.atom(Atom('max', a, b))
def s_min(a, b):
    """std::min(a,b): (b<a)?b:a"""
    a, b = toS(a), toS(b)
    if a is b: return a
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None: return S.c(min(ca, cb))
    return S.atom(Atom('min', a, b))
def s_abs(a):
    a = toS(a); c = a.const()
    if c is not None: return S.c(abs(c))
    return S.atom(Atom('abs', a))
def s_ite(c, a, b):
    a, b = toS(a), toS(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return S.atom(Atom('ite', c, a, b))
def s_pow(b, n):
    """b^n for integer polynomial n (n>=0): normalised so that b^(n+1)=b*b^n."""
    n = toP(n); k = n.t.get((), 0); base = n - k
    r = S.c(1) if not base.t else S.atom(Atom('pow', toS(b), base))
    if k < 0 and base.t:
        return S.atom(Atom('pow', toS(b), n))
    for _ in range(k): r = r * b
    return r

def atom_subst_i(a, sub):
    if not (a.isyms & sub.keys()): return S.atom(a)
    k, g = a.kind, a.args
    if k == 'isym': return S.ofP(toP(sub[g[0]])) if g[0] in sub else S.atom(a)
    if k in ('sum', 'emax'):
        sub = {x: y for x, y in sub.items() if x != g[0]}
        return rebuild(k, (g[0],) + tuple(subst_i(x, sub) for x in g[1:]))
    return rebuild(k, tuple(subst_i(x, sub) for x in g))

def rebuild(k, g):
    if k == 'inv': return s_inv(g[0])
    if k == 'sqrt': return s_sqrt(g[0])
    if k == 'max': return s_max(*g)
    if k == 'min': return s_min(*g)
    if k == 'abs': return s_abs(*g)
    if k == 'ite': return s_ite(*g)
    if k == 'pow': return s_pow(*g)
    if k == 'elem': return word_elem(g[0], g[1])
    if k == 'norm2': return m_norm2(g[0])
    if k == 'normInf': return m_normInf(g[0])
    if k == 'dotw': return S.atom(Atom('dotw', g[0]))
    return S.atom(Atom(k, *g))

def subst_i(x, sub):
    if isinstance(x, P): return x.subst(sub)
    if isinstance(x, (S, B, Mat)): return x.subst_i(sub)
    if isinstance(x, Base): return x.subst_i(sub)
    if isinstance(x, tuple): return tuple(subst_i(y, sub) for y in x)
    return x

# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ('k', 'a', '_h', '_is', '_bs')
    _tab = {}
    def __new__(cls, k, *a):
        key = (k, a)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.k = k; o.a = a; o._h = hash(key); o._is = None; o._bs = None
            cls._tab[key] = o
        return o
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __deepcopy__(self, m): return self
    def _coll(self):
        s = set(); b = set(); _collect(self.a, s, b)
        if self.k == 'forall': s.discard(self.a[0])
        self._is = frozenset(s); self._bs = frozenset(b)
    def isyms(self):
        if self._is is None: self._coll()
        return self._is
    def bases(self):
        if self._bs is None: self._coll()
        return self._bs
    def subst_i(self, sub):
        if not (self.isyms() & sub.keys()): return self
        a = tuple(subst_i(x, sub) for x in self.a)
        return mkB(self.k, *a)
    def __repr__(self):
        if self.k in ('true', 'false'): return self.k
        if self.k in ('ile', 'rle'): return '(%r<=%r)' % self.a
        if self.k in ('ilt', 'rlt'): return '(%r<%r)' % self.a
        if self.k in ('ieq', 'req'): return '(%r==%r)' % self.a
        if self.k == 'not': return '!%r' % self.a
        return '%s(%s)' % (self.k, ', '.join(map(repr, self.a)))
TRUE = B('true'); FALSE = B('false')

def mkB(k, *a):
    if k == 'not': return bnot(a[0])
    if k == 'and': return band(*a)
    if k == 'or': return bor(*a)
    if k == 'ile': return ile(*a)
    if k == 'ilt': return ilt(*a)
    if k == 'ieq': return ieq(*a)
    if k == 'rle': return rle(*a)
    if k == 'rlt': return rlt(*a)
    if k == 'req': return req(*a)
    return B(k, *a)
def bnot(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.k == 'not': return b.a[0]
    if b.k == 'ile': return ilt(b.a[1], b.a[0])
    if b.k == 'ilt': return ile(b.a[1], b.a[0])
    return B('not', b)
def band(*bs):
    out = []
    for b in bs:
        if b is FALSE: return FALSE
        if b is TRUE: continue
        for c in (b.a if b.k == 'and' else (b,)):
            if c not in out: out.append(c)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return B('and', *out)
def bor(*bs):
    out = []
    for b in bs:
        if b is TRUE: return TRUE
        if b is FALSE: continue
        for c in (b.a if b.k == 'or' else (b,)):
            if c not in out: out.append(c)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return B('or', *out)
def ile(a, b):
    a, b = toP(a), toP(b); d = (b - a).const()
    if d is not None: return TRUE if d >= 0 else FALSE
    return B('ile', a, b)
def ilt(a, b): return ile(toP(a) + 1, b)
def ieq(a, b):
    a, b = toP(a), toP(b); d = a - b; c = d.const()
    if c is not None: return TRUE if c == 0 else FALSE
    return B('ieq', a, b)
def may_nan(s):
    return any(True for m in s.t if m)
def rle(a, b):
    a, b = toS(a), toS(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None: return TRUE if ca <= cb else FALSE
    return B('rle', a, b)
def rlt(a, b):
    a, b = toS(a), toS(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None: return TRUE if ca < cb else FALSE
    if a is b: return FALSE
    return B('rlt', a, b)
def req(a, b):
    a, b = toS(a), toS(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None: return TRUE if ca == cb else FALSE
    return B('req', a, b)
def bsym(name): return B('bsym', name)
def isnan(s):
    s = toS(s)
    if s.const() is not None: return FALSE
    return B('isnan', s)

# ---------------------------------------------------------------- matrices
class Base:
    """An opaque matrix/vector symbol (possibly an indexed family member)."""
    __slots__ = ('name', 'rows', 'cols', 'idx', 'attr', '_h')
    _tab = {}
    def __new__(cls, name, rows, cols, idx=(), attr=frozenset()):
        rows, cols, idx, attr = toP(rows), toP(cols), tuple(toP(i) for i in idx), frozenset(attr)
        key = (name, rows, cols, idx, attr)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.name, o.rows, o.cols, o.idx, o.attr = name, toP(rows), toP(cols), tuple(idx), frozenset(attr)
            o._h = hash(key)
            cls._tab[key] = o
        return o
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __deepcopy__(self, m): return self
    def subst_i(self, sub):
        return Base(self.name, self.rows.subst(sub), self.cols.subst(sub), tuple(x.subst(sub) for x in self.idx), self.attr)
    def __repr__(self):
        return self.name + (('{' + ','.join(map(repr, self.idx)) + '}') if self.idx else '')

# letters are tuples:
#  ('b', Base, off, rows, cols, ld, T)   rows/cols of the UNtransposed slice
#  ('i', letter)                          inverse
#  ('d', S body($j), n)                   diagonal matrix
#  ('e', S body($j), n, T)                column (T=0) or row (T=1) vector
#  ('s', letter, r0, c0, rows, cols)      generic sub-block of a letter
J = '$j'
PJ = P.sym(J)

def letter_repr(l):
    if l[0] == 'b':
        _, b, off, r, c, ld, T = l
        full = (not off.t) and r is b.rows and c is b.cols
        s = repr(b) + ('' if full else '[%r:%rx%r%s]' % (off, r, c, '' if ld is r else '/%r' % ld))
        return s + ("'" if T else '')
    if l[0] == 'i': return 'inv(%s)' % letter_repr(l[1])
    if l[0] == 'd': return 'diag(%r)' % (l[1],)
    if l[0] == 'e': return 'vec(%r)%s' % (l[1], "'" if l[3] else '')
    return str(l)

def l_rows(l):
    k = l[0]
    if k == 'b': return l[4] if l[6] else l[3]
    if k == 'i': return l_cols(l[1])
    if k == 'd': return l[2]
    if k == 'e': return P.c(1) if l[3] else l[2]
    if k == 's': return l[4]
def l_cols(l):
    k = l[0]
    if k == 'b': return l[3] if l[6] else l[4]
    if k == 'i': return l_rows(l[1])
    if k == 'd': return l[2]
    if k == 'e': return l[2] if l[3] else P.c(1)
    if k == 's': return l[5]
def l_T(l):
    k = l[0]
    if k == 'b':
        b = l[1]
        if 'sym' in b.attr and not l[2].t and l[3] is b.rows and l[4] is b.cols: return l
        if 'symblk' in b.attr and l[3] is l[4] and l[5] is l[3]: return l
        return l[:6] + (1 - l[6],)
    if k == 'i': return ('i', l_T(l[1]))
    if k == 'd': return l
    if k == 'e': return l[:3] + (1 - l[3],)
    if k == 's': return ('s', l_T(l[1]), l[3], l[2], l[5], l[4])
def l_lower(l):
    """letter known to be lower triangular"""
    return l[0] == 'b' and 'lower' in l[1].attr and not l[6] and not l[2].t and l[3] is l[1].rows and l[4] is l[1].cols

def mk_b(base, off=None, rows=None, cols=None, ld=None, T=0):
    off = toP(0 if off is None else off)
    rows = base.rows if rows is None else toP(rows); cols = base.cols if cols is None else toP(cols)
    ld = base.rows if ld is None else toP(ld)
    if cols.const() == 1: ld = rows
    l = ('b', base, off, rows, cols, ld, 0)
    return l_T(l) if T else l

class Mat:
    __slots__ = ('rows', 'cols', 't', 'valid', 'risk', '_h', '_is', '_bs')
    _tab = {}
    def __new__(cls, rows, cols, t, valid='full', risk=frozenset()):
        rows, cols = toP(rows), toP(cols)
        key = (rows, cols, frozenset(t.items()), valid, risk)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.rows, o.cols, o.t, o.valid, o.risk = rows, cols, dict(t), valid, risk
            o._h = hash(key); o._is = None; o._bs = None
            cls._tab[key] = o
        return o
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __deepcopy__(self, m): return self
    @staticmethod
    def zero(r, c): return Mat(r, c, {})
    @staticmethod
    def ident(n): return Mat(n, n, {(): S.c(1)})
    @staticmethod
    def letter(l): return Mat(l_rows(l), l_cols(l), {(l,): S.c(1)})
    @staticmethod
    def base(b): return Mat.letter(mk_b(b))
    def _coll(self):
        s = set(); b = set()
        for w, c in self.t.items():
            _collect(w, s, b); _collect(c, s, b)
        s.discard(J)
        self._is = frozenset(s); self._bs = frozenset(b)
    def isyms(self):
        if self._is is None: self._coll()
        return self._is
    def bases(self):
        if self._bs is None: self._coll()
        return self._bs
    def with_(self, valid=None, risk=None, rows=None, cols=None):
        return Mat(self.rows if rows is None else rows, self.cols if cols is None else cols, self.t,
                   self.valid if valid is None else valid, self.risk if risk is None else risk)
    def __add__(self, o):
        t = dict(self.t)
        for w, c in o.t.items():
            v = t.get(w)
            v = c if v is None else v + c
            if v.t: t[w] = v
            else: t.pop(w, None)
        valid = 'full' if self.valid == 'full' and o.valid == 'full' else 'lower'
        return Mat(self.rows, self.cols, t, valid, self.risk | o.risk)
    def __neg__(self): return Mat(self.rows, self.cols, {w: -c for w, c in self.t.items()}, self.valid, self.risk)
    def __sub__(self, o): return self + (-o)
    def scale(self, s):
        s = toS(s)
        if not s.t:
            return Mat(self.rows, self.cols, {}, self.valid, self.risk | self.bases())
        return Mat(self.rows, self.cols, {w: c * s for w, c in self.t.items() if (c * s).t}, self.valid, self.risk)
    def T(self):
        return Mat(self.cols, self.rows, {tuple(l_T(l) for l in reversed(w)): c for w, c in self.t.items()},
                   {'full': 'full', 'lower': 'upper', 'upper': 'lower'}[self.valid], self.risk)
    def __mul__(self, o):
        if self.valid != 'full' or o.valid != 'full':
            raise Violation('product reads the unset triangle of a workspace matrix')
        acc = {}
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                for w, c in norm_word(w1 + w2):
                    v = acc.get(w)
                    cc = c1 * c2 * c
                    v = cc if v is None else v + cc
                    if v.t: acc[w] = v
                    else: acc.pop(w, None)
        return Mat(self.rows, o.cols, acc, 'full', self.risk | o.risk)
    def subst_i(self, sub):
        sub = {k: v for k, v in sub.items() if k != J}
        if not ((self.isyms() | self.rows.syms() | self.cols.syms()) & sub.keys()): return self
        r = Mat(self.rows.subst(sub), self.cols.subst(sub), {}, self.valid, self.risk)
        for w, c in self.t.items():
            x = Mat(r.rows, r.cols, {(): c.subst_i(sub)}) if not w else None
            if w:
                ls = [l_subst(l, sub) for l in w]
                x = None
                for l in ls:
                    y = l if isinstance(l, Mat) else Mat.letter(l)
                    x = y if x is None else x * y
                x = x.scale(c.subst_i(sub))
            r = r + x.with_(valid=self.valid)
        return r.with_(valid=self.valid, risk=self.risk)
    def __repr__(self):
        if not self.t: return '0'
        o = []
        for w, c in self.t.items():
            k = c.const()
            o.append(('' if k == 1 else '-' if k == -1 else '(%r)*' % c) + repr(Word(w)))
        return ' + '.join(o) + ('' if self.valid == 'full' else '{%s}' % self.valid) + ('{risk}' if self.risk else '')

def l_subst(l, sub):
    k = l[0]
    if k == 'b':
        b = l[1].subst_i(sub)
        x = mk_b(b, l[2].subst(sub), l[3].subst(sub), l[4].subst(sub), l[5].subst(sub), 0)
        return l_T(x) if l[6] else x
    if k == 'i': return ('i', l_subst(l[1], sub))
    if k == 'd': return diag_from_body(l[1].subst_i(sub), l[2].subst(sub))
    if k == 'e':
        m = vec_from_body(l[1].subst_i(sub), l[2].subst(sub))
        return m.T() if l[3] else m
    if k == 's': return ('s', l_subst(l[1], sub)) + tuple(x.subst(sub) for x in l[2:])

def norm_word(w):
    """normalise a word; yields [(word, coeff)]"""
    w = list(w); coef = S.c(1)
    i = 0
    while i < len(w) - 1:
        a, b = w[i], w[i + 1]
        if (a[0] == 'i' and a[1] == b) or (b[0] == 'i' and b[1] == a):
            del w[i:i + 2]; i = max(i - 1, 0); continue
        if a[0] == 'd' and b[0] == 'd':
            m = diag_from_body(a[1] * b[1], a[2])
            return _expand(w[:i], m, w[i + 2:])
        if a[0] == 'd' and b[0] == 'e' and not b[3]:
            m = vec_from_body(a[1] * b[1], a[2])
            return _expand(w[:i], m, w[i + 2:])
        if a[0] == 'e' and a[3] and b[0] == 'd':
            m = vec_from_body(a[1] * b[1], b[2]).T()
            return _expand(w[:i], m, w[i + 2:])
        if a[0] == 'd' and b[0] == 'b' and l_cols(b).const() == 1 and i + 2 == len(w):
            m = vec_from_body(a[1] * l_elem(b, PJ), a[2])
            return _expand(w[:i], m, [])
        if b[0] == 'd' and a[0] == 'b' and l_rows(a).const() == 1 and i == 0:
            m = vec_from_body(b[1] * l_elem(l_T(a), PJ), b[2]).T()
            return _expand([], m, w[i + 2:])
        i += 1
    return [(tuple(w), coef)]
def _expand(pre, m, post):
    out = []
    for ww, c in m.t.items():
        for w2, c2 in norm_word(tuple(pre) + ww + tuple(post)): out.append((w2, c * c2))
    return out

def split_j(body):
    """body(S) -> list of (coeff S free of $j, monomial S depending on $j or 1)"""
    groups = {}
    for m, c in body.t.items():
        dep = tuple(x for x in m if J in x[0].isyms)
        ind = tuple(x for x in m if J not in x[0].isyms)
        g = groups.setdefault(dep, {})
        g[ind] = c
    return [(S(g), S({dep: Fraction(1)}), dep) for dep, g in groups.items()]

ONESJ = S.c(1)
def vec_from_body(body, n):
    """column vector of length n with entries body($j)"""
    n = toP(n); r = Mat.zero(n, 1)
    for coef, mono, dep in split_j(toS(body)):
        el = [(a, e) for a, e in dep if a.kind == 'elem' and a.args[1].coeff_of(J) is not None
              and a.args[1].coeff_of(J)[0].const() == 1 and not _word_has_j(a.args[0])]
        longs = [(a, e) for a, e in el if len(a.args[0]) > 1 and e == 1]
        done = False
        if len(longs) == 1:
            a = longs[0][0]; off = a.args[1].coeff_of(J)[1]
            rest = tuple(x for x in dep if x[0] is not a)
            x = m_block(Mat(word_rows(a.args[0]), 1, {a.args[0]: S.c(1)}), off, 0, n, 1)
            if not rest: r = r + x.scale(coef); done = True
            elif len(x.t) == 1:
                (ww, cc), = x.t.items()
                w = (('d', S({rest: Fraction(1)}), n),) + ww
                # keep d in front (norm_word would not merge: ww has length >= 2)
                y = Mat(n, 1, {w: cc})
                if ww[0][0] == 'd':
                    y = Mat(n, 1, {})
                    for w2, c2 in norm_word(w): y = y + Mat(n, 1, {w2: c2 * cc})
                r = r + y.scale(coef); done = True
        elif len(dep) == 1 and dep[0][1] == 1 and el and len(el[0][0].args[0]) == 1:
            a = el[0][0]; off = a.args[1].coeff_of(J)[1]
            l = a.args[0][0]
            if l[0] == 'b' and not l[6]:
                r = r + Mat.letter(mk_b(l[1], l[2] + off, n, 1, n)).scale(coef); done = True
        if not done:
            r = r + Mat(n, 1, {(('e', mono, n, 0),): coef})
    return r
def _word_has_j(w):
    s = set(); _collect(w, s, set()); 
    return J in s and any(l[0] == 'b' and J in (l[2].syms() | set().union(*[x.syms() for x in l[1].idx]) if l[1].idx else l[2].syms()) for l in w)

def diag_from_body(body, n):
    n = toP(n); r = Mat.zero(n, n)
    for coef, mono, dep in split_j(toS(body)):
        w = (('d', mono, n),) if dep else ()
        r = r + Mat(n, n, {w: coef})
    return r

def word_rows(w): return l_rows(w[0])
def word_cols(w): return l_cols(w[-1])

def l_elem(l, i):
    """element i of a column-vector letter"""
    if l[0] == 'e': return l[1].subst_i({J: i})
    if l[0] == 'b' and not l[6]:
        if l[3].const() == 1 and not i.t and False: pass
        return S.atom(Atom('elem', (mk_b(l[1], 0, None, None),), l[2] + i)) if _flat1(l[1]) else S.atom(Atom('elem', (l,), i))
    return S.atom(Atom('elem', (l,), i))
def _flat1(b): return b.cols.const() == 1
def word_elem(w, i):
    """element i of a column vector given by a word"""
    if len(w) == 1: return l_elem(w[0], i) if w[0][0] in ('b', 'e') else S.atom(Atom('elem', w, i))
    if w[0][0] == 'd':
        return w[0][1].subst_i({J: i}) * word_elem(w[1:], i)
    # canonical: fold a row slice of the first letter into the index
    l = w[0]
    if l[0] == 'b' and not l[6] and l[1].cols is l[4] and l[5] is l[1].rows and l[3] is not l[1].rows:
        # rows off.. of the full matrix
        return S.atom(Atom('elem', (mk_b(l[1]),) + tuple(w[1:]), l[2] + i))
    return S.atom(Atom('elem', tuple(w), i))
def m_elem(m, i, j=None):
    i = toP(i)
    if m.cols.const() != 1:
        if j is None: raise Unsupported('element of a matrix value')
        return m_elem(m_block(m, 0, j, m.rows, 1), i)
    if m.valid != 'full': raise Violation('reads the unset triangle')
    r = S({})
    for w, c in m.t.items():
        if not w: raise Unsupported('element of identity')
        r = r + c * word_elem(w, i)
    return r

def m_block(m, r0, c0, rows, cols):
    r0, c0, rows, cols = map(toP, (r0, c0, rows, cols))
    if not r0.t and not c0.t and rows is m.rows and cols is m.cols: return m
    if m.valid != 'full': raise Unsupported('block of a half-set matrix')
    out = Mat(rows, cols, {}, 'full', m.risk)
    for w, c in m.t.items():
        if not w:
            if r0 is c0 and rows is cols: out = out + Mat(rows, cols, {(): c}); continue
            raise Unsupported('off-diagonal block of identity')
        if len(w) == 1: x = l_block(w[0], r0, c0, rows, cols)
        else:
            a = l_block(w[0], r0, P.c(0), rows, l_cols(w[0]))
            b = l_block(w[-1], P.c(0), c0, l_rows(w[-1]), cols)
            x = a
            for l in w[1:-1]: x = x * Mat.letter(l)
            x = x * b
        out = out + x.scale(c)
    return out
def l_block(l, r0, c0, rows, cols):
    if not r0.t and not c0.t and rows is l_rows(l) and cols is l_cols(l): return Mat.letter(l)
    if l[0] == 'b':
        if l[6]:
            return l_block(l_T(l), c0, r0, cols, rows).T()
        return Mat.letter(mk_b(l[1], l[2] + r0 + c0 * l[5], rows, cols, l[5]))
    if l[0] == 'e':
        if l[3]: return vec_from_body(l[1].subst_i({J: PJ + c0}), cols).T()
        return vec_from_body(l[1].subst_i({J: PJ + r0}), rows)
    if l[0] == 'd':
        if r0 is c0 and rows is cols: return diag_from_body(l[1].subst_i({J: PJ + r0}), rows)
        if cols is l[2] and not c0.t:
            pass
    return Mat.letter(('s', l, r0, c0, rows, cols))

def m_flat_slice(m, off, length):
    """contiguous slice [off, off+length) of the column-major storage of value m, as a vector"""
    if m.cols.const() == 1: return m_block(m, off, 0, length, 1)
    out = Mat(length, 1, {}, 'full', m.risk)
    for w, c in m.t.items():
        if len(w) == 1 and w[0][0] == 'b' and not w[0][6] and w[0][5] is w[0][3]:
            l = w[0]
            out = out + Mat.letter(mk_b(l[1], l[2] + off, length, 1, length)).scale(c)
        else: raise Unsupported('flat slice of a matrix expression')
    return out

def m_reshape(m, rows, cols):
    if rows is m.rows and cols is m.cols: return m
    out = Mat(rows, cols, {}, m.valid, m.risk)
    for w, c in m.t.items():
        if len(w) == 1 and w[0][0] == 'b' and not w[0][6] and w[0][5] is w[0][3]:
            l = w[0]
            out = out + Mat.letter(mk_b(l[1], l[2], rows, cols, rows)).scale(c)
        else: raise Unsupported('reshape of a matrix expression')
    return out

def m_const(rows, cols, s):
    s = toS(s)
    if not s.t: return Mat.zero(rows, cols)
    if toP(cols).const() == 1: return vec_from_body(s, rows)
    raise Unsupported('constant matrix')

def m_diag(v):
    """asDiagonal of a column vector value"""
    return diag_from_body(m_elem(v, PJ), v.rows)

def ew(n, body): return vec_from_body(body, n)

def m_norm2(m):
    if not m.t: return S.c(0)
    lead = min(m.t, key=lambda w: repr(Word(w)))
    c = m.t[lead].t
    k = c[min(c, key=lambda mm: tuple((a.id, e) for a, e in mm))]
    if k < 0: m = -m
    return S.atom(Atom('norm2', Mat(m.rows, m.cols, m.t)))
def m_normInf(m):
    if not m.t: return S.c(0)
    lead = min(m.t, key=lambda w: repr(Word(w)))
    c = m.t[lead].t
    k = c[min(c, key=lambda mm: tuple((a.id, e) for a, e in mm))]
    if k < 0: m = -m
    return S.atom(Atom('normInf', Mat(m.rows, m.cols, m.t)))
def m_dot(a, b):
    m = a.T() * b
    r = S({})
    for w, c in m.t.items():
        wt = tuple(l_T(l) for l in reversed(w))
        w = min(w, wt, key=lambda x: repr(Word(x)))
        r = r + c * S.atom(Atom('dotw', w))
    return r
