"""Symbolic executor over clang's AST: generates the verification conditions.

One instance runs functions of the program on symbolic states.  Branch
feasibility is decided by z3, straight-line Eigen code is evaluated in the
noncommutative matrix ring of core.py, data loops are summarised by families
of writes over a symbolic index (see loops.py).
"""
import re, struct
from fractions import Fraction
from .core import *
from .buf import *
from .vals import *
from . import smt, cxx

class Throw(Exception):
    def __init__(s, st, typ, node=None): s.st, s.typ, s.node = st, typ, node

class InfoV(Val):
    """Eigen::ComputationInfo: Success iff ok"""
    def __init__(s, ok): s.ok = ok
    def key(s): return s.ok

class ThrowVal(Val):
    def __init__(s, typ, where): s.typ, s.where = typ, where
    def key(s): return (s.typ, s.where)

class St:
    def __init__(s):
        s.cells = {}; s.bufs = {}; s.cls = {}; s.facts = (); s.qfacts = (); s.env = {}; s.this = None
        s.ghost = {}; s.events = (); s.defs = (); s.depth = 0; s.n = 0; s.binders = ()
    def copy(s):
        o = St.__new__(St)
        o.__dict__.update(s.__dict__)
        o.cells = dict(s.cells); o.bufs = dict(s.bufs); o.cls = dict(s.cls); o.env = dict(s.env); o.ghost = dict(s.ghost)
        return o
    def become(s, o):
        c = o.copy(); s.__dict__.update(c.__dict__)
    def assume(s, b):
        if b is TRUE: return
        for x in (b.a if b.k == 'and' else tuple(bnot(y) for y in b.a[0].a) if b.k == 'not' and b.a[0].k == 'or' else (b,)):
            if x not in s.facts: s.facts = s.facts + (x,)
    def num(s):
        s.n += 1; return s.n

class Obl:
    __slots__ = ('cat', 'site', 'what', 'status', 'info', 'n')
    def __init__(s, cat, site, what, status, info=''):
        s.cat, s.site, s.what, s.status, s.info, s.n = cat, site, what, status, info, 1
    def __repr__(s): return '%s %s: %s -> %s %s' % (s.cat, s.site, s.what, s.status, s.info)

def is_plain(t): return t.startswith('Eigen::Matrix<')
def is_view(t): return t.startswith(('Eigen::Map<', 'Eigen::Block<', 'Eigen::Ref<', 'Eigen::VectorBlock<'))
def fixed_dims(t):
    m = re.match(r'Eigen::Matrix<double, (-?\d+), (-?\d+)', t)
    if not m: raise Unsupported('matrix type ' + t)
    return int(m.group(1)), int(m.group(2))

NARROW = {'char': 127, 'signed char': 127, 'unsigned char': 255, 'short': 32767, 'unsigned short': 65535}
SCALAR = {'signed char', 'unsigned short', 'double', 'float', 'int', 'long', 'bool', 'unsigned long', 'unsigned int', 'char', 'std::size_t', 'size_t',
          'long long', 'unsigned long long', 'short', 'unsigned char', 'long double'}

def closed(v):
    """a value that depends on nothing"""
    if isinstance(v, P): return v.const() is not None
    if isinstance(v, B): return v is TRUE or v is FALSE
    return isinstance(v, S) and all(a.args and all(isinstance(x, S) and closed(x) for x in a.args) for a in v.atoms())

class Exec:
    def __init__(self, prog):
        self.p = prog; self.obls = {}; self.quiet = 0; self.dec = None
        self.contracts = {}; self.inlined = {}; self.called = {}
        self.loop_hook = None; self.maxpaths = 4000
        self.path_budget = 200000
        self.callstack = []

    # ---------------------------------------------------------- obligations
    def oblige(self, st, cat, goal, node, what, timeout=4000):
        """record and discharge; afterwards the goal is assumed"""
        if goal is TRUE: self._rec(cat, node, what, 'yes'); return True
        r = smt.check(st.facts, goal, timeout)
        s = 'yes' if r == 'yes' else 'unknown' if r == 'unknown' else 'no'
        self._rec(cat, node, what, s, '' if s == 'yes' else '%r under %r' % (goal, st.facts[-8:]))
        if s != 'yes': st.assume(goal)
        return s == 'yes'

    def _rec(self, cat, node, what, status, info=''):
        if self.quiet: return
        site = node if isinstance(node, str) else self.p.where(node) if node is not None else '?'
        fn = self.callstack[-1] if self.callstack else ''
        k = (cat, fn, site, what)
        o = self.obls.get(k)
        if o is None: self.obls[k] = Obl(cat, '%s (%s)' % (fn, site), what, status, info)
        else:
            o.n += 1
            rank = {'yes': 0, 'unknown': 1, 'no': 2}
            if rank[status] > rank[o.status]: o.status, o.info = status, info

    # ---------------------------------------------------------- forking
    def explore(self, st, f):
        """run f(state) along all alternatives; list of (state, ('val',v)|('throw',t))"""
        old = self.dec; out = []; stack = [[]]; memo = {}
        try:
            while stack:
                pre = stack.pop()
                self.dec = dict(pre=pre, pos=0, new=[], memo=memo, ch=(), nc=0)
                s = st.copy()
                try:
                    v = f(s); out.append((s, ('val', v)))
                except Throw as t:
                    out.append((t.st, ('throw', t.typ, (t.node if isinstance(t.node, str) else self.p.where(t.node)) if t.node else '')))
                d = self.dec
                done = list(pre)
                for k, (alts, ch) in enumerate(d['new']):
                    for c in range(ch + 1, len(alts)):
                        stack.append(pre + [(a, x) for a, x in d['new'][:k]] + [(alts, c)])
                if len(out) + len(stack) > self.maxpaths: raise Unsupported('too many paths')
        finally: self.dec = old
        return out

    def pick(self, st, alts):
        """alts: list of (state, value|ThrowVal); continue on one of them"""
        if not alts: raise Infeasible()
        if len(alts) == 1: s, v = alts[0]
        else:
            d = self.dec
            if d is None: raise Unsupported('fork outside exploration')
            if d['pos'] < len(d['pre']): alts, ch = d['pre'][d['pos']]
            else:
                ch = 0; d['new'].append((alts, 0))
            d['pos'] += 1; d['ch'] += (ch,); d['nc'] = 0
            s, v = alts[ch]
        st.become(s)
        if isinstance(v, ThrowVal): raise Throw(st, v.typ, v.where)
        return v

    def decide(self, st, b):
        """truth of b on this path (forks)"""
        if b is TRUE: return True
        if b is FALSE: return False
        alts = []
        t = self.possible(st, b); f = self.possible(st, bnot(b))
        if t:
            s = st.copy(); s.assume(b); alts.append((s, True))
        if f:
            s = st.copy(); s.assume(bnot(b)); alts.append((s, False))
        if not alts: raise Infeasible()
        return self.pick(st, alts)

    def possible(self, st, b):
        if b is TRUE: return True
        if b is FALSE: return False
        return smt.check(st.facts, bnot(b), 1500) != 'yes'

    # ---------------------------------------------------------- statements
    def run_stmts(self, st, nodes):
        cur = [st]; done = []
        for n in nodes:
            nxt = []
            for s in cur:
                for s2, o in self.exec_stmt(s, n):
                    if o[0] == 'next': nxt.append(s2)
                    else: done.append((s2, o))
            cur = nxt
            if len(cur) + len(done) > self.maxpaths: raise Unsupported('too many paths')
            if not cur: break
        return [(s, ('next',)) for s in cur] + done

    def outs(self, st, f, ret=lambda s, v: ('next',)):
        r = []
        for s, o in self.explore(st, f):
            if o[0] == 'val': r.append((s, ret(s, o[1])))
            else: r.append((s, o))
        return r

    def exec_stmt(self, st, n):
        try: return self.exec_stmt_(st, n)
        except Infeasible: return []

    def exec_stmt_(self, st, n):
        k = n.get('kind')
        if k == 'CompoundStmt': return self.run_stmts(st, n.get('inner', []))
        if k == 'NullStmt': return [(st, ('next',))]
        if k == 'DeclStmt':
            cur = [(st, ('next',))]
            for d in n['inner']:
                nx = []
                for s, o in cur:
                    if o[0] != 'next': nx.append((s, o)); continue
                    if d['kind'] != 'VarDecl': nx.append((s, o)); continue
                    nx += self.outs(s, lambda s2, d=d: self.decl(s2, d))
                cur = nx
            return cur
        if k == 'IfStmt':
            inner = [x for x in n['inner']]
            if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with init')
            cond, then = inner[0], inner[1]; els = inner[2] if len(inner) > 2 else None
            res = []
            for s, o in self.outs(st, lambda s: self.cond(s, cond), lambda s, v: ('b', v)):
                if o[0] != 'b': res.append((s, o)); continue
                b = o[1]
                parts = []
                if self.possible(s, b):
                    s1 = s.copy(); s1.assume(b)
                    parts.append(self.exec_stmt(s1, then))
                if self.possible(s, bnot(b)):
                    s2 = s.copy(); s2.assume(bnot(b))
                    parts.append(self.exec_stmt(s2, els) if els else [(s2, ('next',))])
                res += self.join(s, parts)
            return res
        if k == 'ReturnStmt':
            e = n.get('inner', [None])
            e = e[0] if e else None
            if e is None: return [(st, ('return', None))]
            return self.outs(st, lambda s: self.retval(s, e), lambda s, v: ('return', v))
        if k == 'BreakStmt': return [(st, ('break',))]
        if k == 'ContinueStmt': return [(st, ('continue',))]
        if k == 'ForStmt': return self.exec_for(st, n)
        if k == 'WhileStmt': return self.exec_while(st, n)
        if k == 'CXXForRangeStmt': return self.exec_range(st, n)
        if k == 'DoStmt': return self.exec_do(st, n)
        if k == 'RangeBind': return self.outs(st, lambda s: self.bind_decl(s, n['decl'], cxx.ty(n['decl']), n['elem']))
        if k == 'SwitchStmt': return self.exec_switch(st, n)
        if k == 'CXXTryStmt': raise Unsupported(k)
        if k in ('CaseStmt', 'DefaultStmt'): return self.exec_stmt(st, n['inner'][-1])
        return self.outs(st, lambda s: self.eval(s, n))

    def exec_switch(self, st, n):
        cond, body = n['inner'][0], n['inner'][-1]
        res = []
        for s, o in self.outs(st, lambda s: self.rv(s, cond), lambda s, v: ('b', v)):
            if o[0] != 'b': res.append((s, o)); continue
            v = o[1]
            # flatten
            seq = []
            def flat(x, labels):
                if x['kind'] == 'CaseStmt':
                    flat(x['inner'][-1], labels + [x['inner'][0]])
                elif x['kind'] == 'DefaultStmt': flat(x['inner'][-1], labels + ['default'])
                else: seq.append((labels, x))
            for x in body.get('inner', []): flat(x, [])
            rest = s.copy()
            for i, (labels, x) in enumerate(seq):
                for l in labels:
                    if l == 'default': continue
                    c = ieq(toP(v), toP(self.rv(s, l)))
                    if self.possible(rest, c):
                        s1 = rest.copy(); s1.assume(c)
                        res += self.from_case(s1, seq, i)
                    rest.assume(bnot(c))
                    if not smt.feasible(rest.facts): break
            if smt.feasible(rest.facts):
                di = [i for i, (l, x) in enumerate(seq) if 'default' in l]
                if di: res += self.from_case(rest, seq, di[0])
                else: res.append((rest, ('next',)))
        return res

    def from_case(self, s, seq, i):
        out = []
        for s2, o in self.run_stmts(s, [x for _, x in seq[i:]]):
            out.append((s2, ('next',) if o[0] == 'break' else o))
        return out

    def join(self, s0, parts):
        """merge the fall-through states of the branches of an if"""
        nexts = [s for p in parts for s, o in p if o[0] == 'next']
        rest = [(s, o) for p in parts for s, o in p if o[0] != 'next']
        nexts = self.merge_list(s0, nexts)
        return [(s, ('next',)) for s in nexts] + rest

    def merge_list(self, s0, sts):
        out = []
        for s in sts:
            for k, t in enumerate(out):
                m = self.merge(s0, t, s)
                if m is not None: out[k] = m; break
            else: out.append(s)
        return out

    def extra(self, s0, s):
        n = len(s0.facts)
        if s.facts[:n] == s0.facts: return s.facts[n:]
        return None

    apart = ()              # ghost cells that keep paths apart
    def merge(self, s0, a, b, va=None, vb=None):
        """merged state or None"""
        if a.events != b.events or a.ghost != b.ghost or a.this != b.this or a.qfacts != b.qfacts or a.binders != b.binders: return None
        if a.defs != b.defs: return None
        ea, eb = self.extra(s0, a), self.extra(s0, b)
        if ea is None or eb is None: return None
        ca, cb = band(*ea), band(*eb)
        m = a.copy(); m.n = max(a.n, b.n)
        for k in set(a.cells) | set(b.cells):
            x, y = a.cells.get(k), b.cells.get(k)
            if x is None or y is None:
                if k in s0.cells: return None
                m.cells.pop(k, None); continue      # local of one branch
            if x == y: continue
            if k in self.apart: return None
            if isinstance(x, S) and isinstance(y, S): m.cells[k] = s_ite(ca, x, y)
            elif isinstance(x, B) and isinstance(y, B): m.cells[k] = b_ite(ca, x, y)
            else: return None
        for k in set(a.bufs) | set(b.bufs):
            x, y = a.bufs.get(k), b.bufs.get(k)
            if x is None or y is None:
                if k in s0.bufs: return None
                m.bufs.pop(k, None); continue
            if x is y or same_buf(x, y): continue
            z = self.merge_buf(ca, x, y) or self.merge_reads(ca, x, y, a.facts, b.facts)
            if z is None: return None
            m.bufs[k] = z
        for k in list(a.cls):
            if k not in b.cls and k not in s0.cls: m.cls.pop(k, None)
        m.env = {k: v for k, v in a.env.items() if b.env.get(k) == v or k in s0.env}
        if a.env.keys() & b.env.keys():
            for k in a.env.keys() & b.env.keys():
                if k in s0.env and a.env[k] != b.env[k]: return None
        m.facts = s0.facts
        c = bor(ca, cb) if cb is not bnot(ca) else TRUE
        common = [f for f in ea if f in eb]
        for f in common: m.assume(f)
        if c is not TRUE:
            ra = [f for f in ea if f not in common]; rb = [f for f in eb if f not in common]
            if ra and rb and not (len(ra) == 1 and len(rb) == 1 and rb[0] is bnot(ra[0])):
                if not smt.prove(m.facts, c, 1500): m.assume(c)
        return m

    def merge_reads(self, c, x, y, fx, fy):
        """storage written differently on the two sides: every region written on either side gets the value of its side"""
        if x.vec or y.vec or x.base is not y.base: return None
        k = 0
        while k < len(x.log) and k < len(y.log) and same_w(x.log[k], y.log[k]): k += 1
        rest = {}
        for e in x.log[k:] + y.log[k:]:
            if e.b is not None: return None
            rest[e.reg.key()] = e
        log = []
        try:
            for e in rest.values():
                v, w = x.read(fx, e.reg), y.read(fy, e.reg)
                if v is w: log.append(W(e.reg, v)); continue
                if v.cols.const() != 1 or v.valid != 'full' or w.valid != 'full' or v.rows is not w.rows or v.risk or w.risk: return None
                log.append(W(e.reg, vec_from_body(s_ite(c, m_elem(v, PJ), m_elem(w, PJ)), v.rows)))
        except (Unsupported, Violation): return None
        return Buf(x.name, x.base, x.log[:k] + tuple(log), x.vec)

    def merge_buf(self, c, x, y):
        if x.vec or y.vec or x.base is not y.base: return None
        xr = {e.reg.key(): e for e in x.log if e.b is None}; yr = {e.reg.key(): e for e in y.log if e.b is None}
        if len(xr) != len(x.log) or len(yr) != len(y.log):
            # families: only a common prefix is allowed
            k = 0
            while k < len(x.log) and k < len(y.log) and same_w(x.log[k], y.log[k]): k += 1
            pre = x.log[:k]; xl, yl = x.log[k:], y.log[k:]
            if any(e.b is not None for e in xl + yl): return None
            xr = {e.reg.key(): e for e in xl}; yr = {e.reg.key(): e for e in yl}
        else: pre = ()
        if set(xr) != set(yr):
            return None
        log = []
        for k, e in xr.items():
            v, w = e.val, yr[k].val
            if v is w: log.append(e); continue
            if v.cols.const() != 1 or v.valid != 'full' or w.valid != 'full' or v.rows is not w.rows: return None
            if v.risk or w.risk: return None
            try: val = vec_from_body(s_ite(c, m_elem(v, PJ), m_elem(w, PJ)), v.rows)
            except (Unsupported, Violation): return None
            log.append(W(e.reg, val))
        return Buf(x.name, x.base, tuple(pre) + tuple(log), x.vec)

    # ---------------------------------------------------------- declarations
    def decl(self, st, d):
        t = cxx.ty(d); init = [x for x in d.get('inner', []) if x.get('kind') not in ('FullComment',)]
        init = init[-1] if init else None
        if d.get('storageClass') == 'static': return self.static_local(st, d, t, init)
        self.bind_decl(st, d, t, init)

    def static_local(self, st, d, t, init):
        """a variable that outlives the call: a constant, or anything an earlier call may have left"""
        a = ('static', d['id']); ct = re.sub(r'^const\s+|\s+const$', '', t.strip())
        if ct not in SCALAR: raise Unsupported('static local of type ' + t)
        if a not in st.cells:
            v = self.conv(self.rv(st, init), ct) if init is not None else None
            nm = 'stale:static.' + str(d.get('name'))
            if t.strip().startswith('const') and closed(v): st.cells[a] = v
            else: st.cells[a] = bsym(nm) if ct == 'bool' else P.sym(nm) if ct not in ('double', 'float') else S.sym(nm)
        st.env[d['id']] = LV(a)

    def bind_decl(self, st, d, t, init):
        a = ('L', st.depth, d['id'])
        ref = t.rstrip().endswith('&')
        x = init
        while x is not None and x.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'CXXConstructExpr') and x.get('inner'): x = x['inner'][0]
        if x is not None and x.get('kind') == 'LambdaExpr': st.env[d['id']] = self.e_LambdaExpr(st, x); return
        bt = cxx.strip_type(t) if not t.rstrip().endswith('*') else t
        if ref:
            self.lifetime(d, t, init)
            v = self.eval(st, init)
            v = self.materialize(st, v, a, bt)
            st.env[d['id']] = v; return
        self.lifetime(d, t, init)
        v = self.construct_into(st, a, t, init)
        st.env[d['id']] = v
    def lifetime(self, d, t, init):
        ct = cxx.strip_type(t)
        if init is None or not ct.startswith('Eigen::') or is_plain(ct) or ct.startswith(('Eigen::Map<', 'Eigen::Ref<', 'Eigen::LLT<', 'Eigen::LDLT<')): return
        x = self.dangles(init)
        self._rec('lifetime', d, 'the expression does not outlive the temporaries it refers to', 'yes' if x is None else 'no')

    def materialize(self, st, v, a, bt):
        """bind a reference: lvalues as they are, scalar rvalues to a cell"""
        if isinstance(v, (S, P, B, Ptr, DPtr, NullP, InfoV, Str, Opaque)) or v is None:
            st.cells[a] = v; return LV(a)
        return v

    def construct_into(self, st, a, t, init):
        """create an object of type t at address a, initialised by the expression; returns its lvalue/view"""
        ct = re.sub(r'^const\s+', '', t.strip())
        ct = re.sub(r'\s+const$', '', ct)
        if ct.endswith('*') or ct in SCALAR or self.is_enum(ct):
            v = self.rv(st, init) if init is not None else None
            if v is None: v = self.uninit(st, ct, a)
            st.cells[a] = self.conv(v, ct); return LV(a)
        if is_plain(ct): return self.construct_matrix(st, a, ct, init)
        if is_view(ct):
            if init is None: raise Unsupported('default view')
            v = self.eval(st, init)
            v = self.as_view(st, v)
            st.cells[a] = v
            return LV(a)
        if ct.startswith('Eigen::LLT<') or ct.startswith('Eigen::LDLT<'):
            st.cells[a] = LD('none')
            if init is not None:
                v = self.eval(st, init)
                if isinstance(v, LD): st.cells[a] = v
                elif isinstance(v, LV): st.cells[a] = st.cells[v.addr]
            return LV(a)
        m = re.match(r'std::vector<(Eigen::Matrix<[^>]*>)', ct)
        if m:
            r, c = fixed_dims(m.group(1))
            st.cells[a] = VO(P.c(0), P.c(0), P.c(1 if c == 1 else 0), c == 1)
            st.bufs[a] = Buf(self.aname(a), self.stale_family(a, P.c(0), P.c(1)), (), True)
            x = [y for y in self.ctor_args(init) if y.get('kind') != 'CXXDefaultArgExpr'] if init is not None else []
            if x:
                k = self.rv(st, x[0])
                if not isinstance(k, P) or len(x) > 2: raise Unsupported('vector constructor')
                self.oblige(st, 'size', ile(0, k), init, 'vector of a nonnegative length')
                if len(x) == 2: self.vo_fill(st, LV(a), k, x[1])
                else: st.cells[a] = VO(k, P.c(0), P.c(1 if c == 1 else 0), c == 1, ('partial', None))
            return LV(a)
        if re.match(r'std::vector<double', ct):
            st.cells[a] = DV(P.c(0)); st.bufs[a] = Buf(self.aname(a), Mat.zero(0, 1))
            if init is not None and self.ctor_args(init):
                args = [self.eval(st, x) for x in self.ctor_args(init)]
                if len(args) == 1 and isinstance(args[0], LV) and isinstance(st.cells.get(args[0].addr), DV):
                    st.cells[a] = st.cells[args[0].addr]; st.bufs[a] = st.bufs[args[0].addr]
                else: raise Unsupported('vector<double> constructor')
            return LV(a)
        m = re.match(r'std::array<double, (\d+)>', ct)
        if m:
            n = int(m.group(1))
            st.cells[a] = DV(n); st.bufs[a] = Buf(self.aname(a), self.stale(a, P.c(n), P.c(1)))
            if init is not None and not (init.get('kind') == 'CXXConstructExpr' and not init.get('inner') and not init.get('zeroing')):
                vals = self.init_list(st, init)
                if vals is None: raise Unsupported('array initialiser')
                vals += [S.c(0)] * (n - len(vals))
                for k, v in enumerate(vals):
                    st.bufs[a] = st.bufs[a].write(st.facts, Region(None, k, 0, 1, 1, n), vec_from_body(v, 1))
            return LV(a)
        if ct.startswith('std::unique_ptr<'):
            v = NullP()
            if init is not None:
                x = self.eval(st, init)
                if isinstance(x, LV): x = st.cells[x.addr]
                if isinstance(x, (Ptr, NullP)): v = x
                elif x is not None: raise Unsupported('unique_ptr from %r' % (x,))
            st.cells[a] = v; return LV(a)
        if ct.startswith(('std::chrono::', 'std::basic_string', 'std::string', 'std::__cxx11')) or re.match(r'char\[\d+\]', ct):
            m = re.match(r'char\[(\d+)\]', ct)
            st.cells[a] = Opaque(('buf', int(m.group(1)))) if m else (self.eval(st, init) if init is not None and not ct.startswith('char') else Opaque('time'))
            if isinstance(st.cells[a], LV): st.cells[a] = st.cells[st.cells[a].addr]
            return LV(a)
        key = self.p.class_key(ct)
        if key is not None:
            if init is None:
                self.construct(st, a, key, None, []); return OL(a)
            v = self.eval_into(st, init, a, key)
            if isinstance(v, OL) and v.addr != a: self.copy_object(st, v.addr, a, key)
            return OL(a)
        if ct.startswith('Eigen::'):       # expression type: stays lazy
            return self.eval(st, init)
        m = re.match(r'double\[(\d+)\]', ct)
        if m:
            n = int(m.group(1)); st.cells[a] = DV(n); st.bufs[a] = Buf(self.aname(a), self.stale(a, P.c(n), P.c(1)))
            if init is not None:
                vals = self.init_list(st, init)
                if vals is None: raise Unsupported('array initialiser')
                for k, v in enumerate(vals + [S.c(0)] * (n - len(vals))):
                    st.bufs[a] = st.bufs[a].write(st.facts, Region(None, k, 0, 1, 1, n), vec_from_body(v, 1))
            return LV(a)
        m = re.match(r'(?:std::array<(.*\*) ?(?:const)?, (\d+)>|(.*\*) ?(?:const)?\[(\d+)\])$', ct)
        if m and init is not None:              # a table of pointers
            n = int(m.group(2) or m.group(4)); vals = self.init_elems(st, init)
            if vals is None or len(vals) != n or not all(isinstance(v, (Ptr, NullP)) for v in vals): raise Unsupported('table of pointers')
            st.cells[a] = PA(n)
            for i, v in enumerate(vals): st.cells[a + (i,)] = v
            return LV(a)
        raise Unsupported('declaration of type ' + t)

    def init_list(self, st, n):
        v = self.init_elems(st, n)
        return None if v is None else [toS(self.num(x)) for x in v]
    def init_elems(self, st, n):
        """the values of a braced list, None when the initialiser is something else"""
        out = []
        while n.get('kind') in ('ExprWithCleanups', 'CXXStdInitializerListExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr') and len(n.get('inner', [])) == 1: n = n['inner'][0]
        if n.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and not n.get('inner') and n.get('zeroing'): return []
        if n.get('kind') != 'InitListExpr': return None
        def go(x):
            if x['kind'] == 'InitListExpr':
                if 'array_filler' in x:
                    for y in x['array_filler']:
                        if y.get('kind') != 'ImplicitValueInitExpr': go(y)
                for y in x.get('inner', []): go(y)
            elif x['kind'] != 'ImplicitValueInitExpr': out.append(self.rv(st, x))
        go(n)
        return out

    def num(self, v):
        if isinstance(v, P): return S.ofP(v)
        return v

    def is_enum(self, t):
        t = cxx.strip_type(t)
        if t.startswith('Eigen::ComputationInfo'): return True
        return any(e[0] == t or e[0].endswith('::' + t) for e in self.p.enums.values())

    def uninit(self, st, t, a):
        nm = 'stale:%s' % self.aname(a)
        if t in ('double', 'float'): return S.sym(nm)
        if t == 'bool': return bsym(nm)
        if t.endswith('*'): return Opaque(nm)
        return P.sym(nm)

    def narrow(self, st, v, t, n):
        t = cxx.strip_type(t)
        if t in NARROW and isinstance(v, P):
            m = NARROW[t]; lo = 0 if t.startswith('unsigned') else -m - 1
            self.oblige(st, 'index', band(ile(lo, v), ile(v, m)), n, 'value fits the narrower type')
    def single(self, v, t):
        """conversion to float: rounds, and says no more about the result than its sign"""
        if cxx.strip_type(t) != 'float': return v
        s = toS(self.num(v)); c = s.const()
        if c is not None and Fraction(struct.unpack('f', struct.pack('f', float(c)))[0]) == c: return v
        return S.atom(Atom('flt', s))
    @staticmethod
    def dangles(n):
        """a temporary matrix that a lazily evaluated expression would refer to after it is destroyed"""
        t = cxx.strip_type(cxx.ty(n))
        if n.get('kind') == 'MaterializeTemporaryExpr' and is_plain(t): return n
        if n.get('kind') == 'LambdaExpr' or t in SCALAR: return None
        if n.get('kind') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr') and not (t.startswith('Eigen::') and not is_plain(t) and not t.startswith(('Eigen::Map<', 'Eigen::Ref<'))): return None
        for y in n.get('inner', []):
            r = Exec.dangles(y)
            if r is not None: return r
        return None
    def conv(self, v, t):
        if t in ('double', 'float') and isinstance(v, P): return S.ofP(v)
        return v

    def aname(self, a):
        return '.'.join(str(x) for x in a if not (isinstance(x, str) and x.startswith('0x')))

    def stale(self, a, rows, cols):
        return Mat.letter(mk_b(Base('stale:' + self.aname(a), rows, cols, (), {'stale'})))
    def stale_family(self, a, rows, cols):
        nm = 'stale:' + self.aname(a)
        return Fam(nm, rows, cols)

    def construct_matrix(self, st, a, ct, init):
        r, c = fixed_dims(ct); vec = c == 1
        fixed = r >= 0
        if fixed:
            st.cells[a] = MO(r, c, vec, True)
            st.bufs[a] = Buf(self.aname(a), self.stale(a, P.c(r), P.c(c)))
        else:
            st.cells[a] = MO(0, 1 if vec else 0, vec)
            st.bufs[a] = Buf(self.aname(a), Mat.zero(0, 1 if vec else 0))
        lv = ML(a)
        if init is None: return lv
        args = self.ctor_args(init)
        if args is None:       # an expression
            v = self.eval(st, init)
            self.assign(st, lv, v, init); return lv
        if not args: return lv
        vals = [self.eval(st, x) for x in args]
        self.matrix_ctor(st, lv, vals, args, init)
        return lv

    def matrix_ctor(self, st, lv, vals, nodes, node):
        rvv = [self.load(st, v) for v in vals]
        if all(isinstance(v, P) for v in rvv) and len(rvv) in (1, 2) and not st.cells[lv.addr].fixed:
            self.resize(st, lv, rvv, node)
        elif len(rvv) == 1:
            src = vals[0]
            if isinstance(src, LV) and isinstance(st.cells.get(src.addr), MO): src = ML(src.addr)
            o = st.cells[lv.addr]
            if isinstance(src, ML) and src.idx is None and (not o.fixed or (o.rows is st.cells[src.addr].rows and o.cols is st.cells[src.addr].cols)) \
                    and not (o.vec and st.cells[src.addr].cols.const() != 1):
                q = st.cells[src.addr]      # a copy: same content, same layout
                st.cells[lv.addr] = MO(q.rows, q.cols, o.vec, o.fixed) if (q.rows, q.cols) != (o.rows, o.cols) else o
                b = st.bufs[src.addr]; st.bufs[lv.addr] = Buf(st.bufs[lv.addr].name, b.base, b.log)
            else: self.assign(st, lv, vals[0], node)
        elif st.cells[lv.addr].fixed and len(rvv) == st.cells[lv.addr].rows.const():
            for k, v in enumerate(rvv):
                self.store(st, ER(lv.addr, Region(None, k, 0, 1, 1, st.cells[lv.addr].rows)), self.num(v), node)
        else: raise Unsupported('matrix constructor')

    def unwrap(self, n):
        while n.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr') or \
                (n.get('kind') in ('ImplicitCastExpr', 'CXXFunctionalCastExpr') and n.get('castKind') in ('NoOp', 'ConstructorConversion')):
            n = n['inner'][-1]
        return n

    def ctor_args(self, n):
        n = self.unwrap(n)
        if n.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return [x for x in n.get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']
        if n.get('kind') == 'ParenListExpr': return n.get('inner', [])
        return None

    # ---------------------------------------------------------- classes
    def eval_into(self, st, n, a, key):
        """evaluate a class-typed initialiser, constructing in place when possible"""
        m = self.unwrap(n)
        if m.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            args = m.get('inner', [])
            ct = m.get('ctorType', {}).get('qualType', '')
            if len(args) == 1 and self.is_copy(ct, key):
                v = self.eval(st, args[0])
                if isinstance(v, OL): return v
            self.construct(st, a, key, m, args)
            return OL(a)
        if m.get('kind') == 'InitListExpr': raise Unsupported('aggregate initialisation')
        return self.eval(st, n)

    def is_copy(self, ctortype, key):
        m = re.match(r'void \((.*)\)', ctortype)
        if not m: return False
        x = m.group(1)
        if ',' in re.sub(r'<[^<>]*>', '', x): return False
        c = self.p.cls[key]
        for mg in c.methods.get(c.tname or key.split('::')[-1].split('<')[0], []):
            f = self.p.fns[mg]
            if f.kind == 'CXXConstructorDecl' and f.type == ctortype and f.body is not None and not self.trivial_assign(f): return False
        return x.rstrip().endswith('&') and self.p.class_key(x) == key

    def copy_object(self, st, src, dst, key):
        n = len(src)
        for k in [k for k in st.cells if k[:n] == src]: st.cells[dst + k[n:]] = st.cells[k]
        for k in [k for k in st.bufs if k[:n] == src]: st.bufs[dst + k[n:]] = st.bufs[k]
        for k in [k for k in st.cls if k[:n] == src]: st.cls[dst + k[n:]] = st.cls[k]
        st.cls[dst] = key

    def construct(self, st, a, key, node, args, argvals=None):
        """run the constructor"""
        cands = []
        nm = key.split('::')[-1].split('<')[0]
        c = self.p.cls[key]
        for m in c.methods.get(c.tname or nm, []):
            f = self.p.fns[m]
            if f.kind == 'CXXConstructorDecl': cands.append(f)
        st.cls[a] = key
        want = node.get('ctorType', {}).get('qualType') if node is not None else None
        def norm(t): return re.sub(r'\b(Eigen|fbstab|std)::|\s', '', t)
        fs = [f for f in cands if want and (f.type == want or norm(f.type) == norm(want))]
        if not fs and want: fs = [f for f in cands if cxx.qty(f.node) == want]
        if not fs:
            n = len(argvals if argvals is not None else args)
            fs = [f for f in cands if len(f.params) == n and (f.body or f.inits)]
            if n == 0 and not fs:
                self.default_fields(st, a, key, {}); return
            if len(fs) != 1: raise Unsupported('constructor of %s: %s' % (key, want))
        f = next((x for x in fs if x.body is not None), fs[0])
        if f.body is None and not f.inits:
            if len(f.params) == 0: self.default_fields(st, a, key, {}); return
            raise Unsupported('constructor without body ' + key)
        vals = argvals if argvals is not None else [self.arg(st, x, p) for x, p in zip(args, f.params)]
        self.call_fn(st, f, a, vals, node)

    def run_inits(self, st, f, a):
        """constructor initialisers + default member initialisers"""
        key = f.cls; inits = {}; deleg = None
        for i in f.inits:
            if 'anyInit' in i: inits[i['anyInit']['name']] = i['inner'][0] if i.get('inner') else None
            elif 'baseInit' in i: inits['base:' + cxx.strip_type(i['baseInit'].get('desugaredQualType') or i['baseInit']['qualType'])] = i['inner'][0] if i.get('inner') else None
            elif 'delegatingInit' in i: deleg = i['inner'][0]
        if deleg is not None:
            m = self.unwrap(deleg)
            self.construct(st, a, key, m, m.get('inner', [])); return
        self.default_fields(st, a, key, inits)

    def default_fields(self, st, a, key, inits):
        c = self.p.cls[key]
        for b in c.bases:
            bk = self.p.class_key(b)
            if bk:
                old = st.cls.get(a)
                i = next((v for k, v in inits.items() if k.startswith('base:') and self.p.class_key(k[5:]) == bk), None)
                m = self.unwrap(i) if i is not None else None
                if m is not None and m.get('inner'): self.construct(st, a, bk, m, m['inner'])
                else: self.default_fields(st, a, bk, {})
                st.cls[a] = key
        for name, (t, dinit, node) in c.fields.items():
            i = inits.get(name)
            if i is not None and self.unwrap(i).get('kind') == 'CXXDefaultInitExpr': i = dinit
            elif name not in inits: i = dinit
            self.construct_into(st, a + (name,), t, i)

    # ---------------------------------------------------------- calls
    def arg(self, st, n, p):
        """evaluate an argument for parameter p"""
        t = cxx.ty(p)
        if n.get('kind') == 'CXXDefaultArgExpr':
            d = [x for x in p.get('inner', [])]
            if not d: raise Unsupported('default argument')
            n = d[-1]
        if t.rstrip().endswith('&'): return self.eval(st, n)
        ct = cxx.strip_type(t) if not t.rstrip().endswith('*') else t
        if ct.endswith('*') or ct in SCALAR or self.is_enum(ct): return self.conv(self.rv(st, n), ct)
        return self.eval(st, n)

    def bind_param(self, st, p, v):
        t = cxx.ty(p); a = ('L', st.depth, p['id'])
        if t.rstrip().endswith('&'):
            st.env[p['id']] = self.materialize(st, v, a, t); return
        ct = re.sub(r'^const\s+', '', t.strip())
        ct = re.sub(r'\s+const$', '', ct)
        if ct.endswith('*') or ct in SCALAR or self.is_enum(ct):
            st.cells[a] = self.conv(self.load(st, v), ct); st.env[p['id']] = LV(a); return
        if is_view(ct):
            st.cells[a] = self.as_view(st, v); st.env[p['id']] = LV(a); return
        if is_plain(ct):
            self.construct_matrix(st, a, ct, None); self.assign(st, ML(a), v, p); st.env[p['id']] = ML(a); return
        if isinstance(v, OL):
            self.copy_object(st, v.addr, a, st.cls[v.addr]); st.env[p['id']] = OL(a); return
        st.cells[a] = self.load(st, v); st.env[p['id']] = LV(a)

    def call_fn(self, st, f, this, vals, node):
        """inline f; forks through pick"""
        ck = self.contract_for(st, f, this)
        if ck is not None:
            self.called[(f.cls, f.name)] = self.called.get((f.cls, f.name), 0) + 1
            alts = ck(self, st, this, vals, node)
            if isinstance(alts, list): return self.pick(st, alts)
            return alts
        if f.body is None: raise Unsupported('no body for %s::%s' % (f.cls, f.name))
        if st.depth > 40: raise Unsupported('recursion')
        d = self.dec
        if d is None: return self.pick(st, self.inline(st, f, this, vals, node))
        d['nc'] += 1; k = (d['ch'], d['nc'])       # replays of a prefix reuse its calls
        alts = d['memo'].get(k)
        if alts is None:
            alts = self.inline(st, f, this, vals, node)
            if d is self.dec: d['memo'][k] = alts
        return self.pick(st, alts)

    def contract_for(self, st, f, this):
        return self.contracts.get((f.cls, f.name))

    def inline(self, st, f, this, vals, node):
        s = st.copy(); env0, this0, depth0 = s.env, s.this, s.depth
        if not isinstance(f, Closure): self.inlined[f.mangled] = f
        s.depth += 1; s.env = dict(getattr(f, 'env', {})); s.this = this
        self.callstack.append('%s::%s' % ((f.cls or '').replace('fbstab::', '').split('<')[0], f.name))
        try:
            for p, v in zip(f.params, vals): self.bind_param(s, p, v)
            if f.kind == 'CXXConstructorDecl':
                outs = []
                for s1, o in self.explore(s, lambda x: self.run_inits(x, f, this)):
                    if o[0] == 'val': outs += self.exec_stmt(s1, f.body) if f.body else [(s1, ('next',))]
                    else: outs.append((s1, o))
            else: outs = self.exec_stmt(s, f.body)
        finally: self.callstack.pop()
        alts = []
        for s2, o in outs:
            v = None
            if o[0] == 'return': v = o[1]
            elif o[0] == 'throw': v = ThrowVal(o[1], o[2] if len(o) > 2 else '')
            elif o[0] not in ('next',): raise Unsupported('outcome ' + o[0])
            v = self.escape(s2, v, f, depth0)
            s2.env, s2.this, s2.depth = env0, this0, depth0
            d = depth0
            if isinstance(v, (View, ML, OL, ER, LV)) and isinstance(getattr(v, 'buf', getattr(v, 'addr', None)), tuple):
                a = v.buf if hasattr(v, 'buf') else v.addr
                keep = a[:3] if a[0] == 'L' and a[1] > d else None
            else: keep = None
            for dd in (s2.cells, s2.bufs, s2.cls):
                for k in [k for k in dd if k[0] == 'L' and k[1] > d and k[:3] != keep]: del dd[k]
            alts.append((s2, v))
        return self.merge_alts(st, alts)

    def escape(self, s, v, f, depth0):
        """copy values that live in the dying frame"""
        if isinstance(v, (LV,)) and v.addr[0] == 'L' and v.addr[1] > depth0:
            x = s.cells.get(v.addr)
            if isinstance(x, DV): return v
            return x
        if isinstance(v, (ML, OL)) and v.addr[0] == 'L' and v.addr[1] > depth0:
            a = ('tmp', depth0, s.num())
            if isinstance(v, OL): self.copy_object(s, v.addr, a, s.cls[v.addr]); return OL(a)
            s.cells[a] = s.cells[v.addr]; s.bufs[a] = s.bufs[v.addr]
            return ML(a)
        return v

    def merge_alts(self, st, alts):
        out = []
        for s, v in alts:
            if isinstance(v, ThrowVal): out.append((s, v)); continue
            for k, (t, w) in enumerate(out):
                if isinstance(w, ThrowVal): continue
                if type(v) != type(w) and not (v is None and w is None): continue
                if isinstance(v, ML) and v != w and v.addr[0] == w.addr[0] == 'tmp' and v.addr not in st.cells and w.addr not in st.cells:
                    s2, t2 = s.copy(), t.copy()       # the returned temporary gets the same name and layout on both sides
                    s2.cells[w.addr] = s2.cells.pop(v.addr); s2.bufs[w.addr] = s2.bufs.pop(v.addr)
                    o = s2.cells[w.addr]; r = o.rows.const()
                    if r is not None and o.cols.const() == 1 and 0 < r <= 4:
                        try:
                            for q in (s2, t2):
                                b = q.bufs[w.addr]; log = []
                                for i in range(r):
                                    reg = Region(None, P.c(i), P.c(0), P.c(1), P.c(1), o.rows)
                                    log.append(W(reg, b.read(q.facts, reg)))
                                q.bufs[w.addr] = Buf(b.name, Mat.zero(o.rows, P.c(1)), tuple(log))
                        except (Unsupported, Violation): pass
                        else: s2.bufs[w.addr] = Buf(t2.bufs[w.addr].name, t2.bufs[w.addr].base, s2.bufs[w.addr].log)
                    m = self.merge(st, t2, s2); z = w
                elif v is None or v == w: m = self.merge(st, t, s); z = v
                elif isinstance(v, (S, B)):
                    e = self.extra(st, t)
                    m = self.merge(st, t, s) if e is not None else None
                    if m is not None: z = s_ite(band(*e), w, v) if isinstance(v, S) else b_ite(band(*e), w, v)
                else: m = None
                if m is not None: out[k] = (m, z); break
            else: out.append((s, v))
        return out

    def retval(self, st, e):
        v = self.eval(st, e)
        return v

    # ---------------------------------------------------------- loads/stores
    def load(self, st, v):
        if isinstance(v, LV):
            x = st.cells.get(v.addr)
            if x is None: raise Unsupported('read of unknown cell %s' % (v.addr,))
            if isinstance(x, (MO,)): return ML(v.addr)
            if isinstance(x, (VO, DV, PA)): return v
            return x
        if isinstance(v, ER): return self.load_elem(st, v)
        return v

    def load_elem(self, st, v):
        m = self.read_reg(st, v.buf, v.reg)
        return m_elem(m, P.c(0))

    def read_reg(self, st, buf, reg):
        b = st.bufs[buf]
        try: return b.read(st.facts, reg)
        except PartialRead as e:
            return self.snap(st, buf, reg)

    def snap(self, st, buf, reg):
        """whole read of a buffer written piecewise: a letter standing for its content"""
        nm = 'snap@%s#%d' % (self.aname(buf), st.num())
        base = Base(nm, reg.rows, reg.cols, tuple(P.sym(b) for b, _, _ in st.binders))
        st.defs = st.defs + (Def('snap', (base, st.bufs[buf], reg), st.binders),)
        return Mat.letter(mk_b(base))

    def store(self, st, lv, v, node=None):
        if isinstance(lv, LV):
            old = st.cells.get(lv.addr)
            if isinstance(old, S) and isinstance(v, P): v = S.ofP(v)
            st.cells[lv.addr] = v; return
        if isinstance(lv, ER):
            st.bufs[lv.buf] = st.bufs[lv.buf].write(st.facts, lv.reg, vec_from_body(toS(self.num(v)), 1)); return
        raise Unsupported('store to %r' % (lv,))

    def cond(self, st, n):
        v = self.rv(st, n)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, B): return v
        if isinstance(v, P): return bnot(ieq(v, 0))
        if isinstance(v, (Ptr, DPtr, NullP)): return bnot(v.null)
        if isinstance(v, S): return bnot(req(v, 0))
        raise Unsupported('condition %r' % (v,))

    def rv(self, st, n):
        return self.load(st, self.eval(st, n))

    # ---------------------------------------------------------- expressions
    def eval(self, st, n):
        f = getattr(self, 'e_' + n.get('kind', ''), None)
        if f is None: raise Unsupported('%s at %s' % (n.get('kind'), self.p.where(n)))
        return f(st, n)

    def passthru(self, st, n): return self.eval(st, n['inner'][-1])
    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ParenExpr = e_ConstantExpr = passthru
    e_SubstNonTypeTemplateParmExpr = passthru
    def e_MaterializeTemporaryExpr(self, st, n):
        v = self.eval(st, n['inner'][-1])
        if isinstance(v, (S, P, B)):
            a = ('tmp', st.depth, st.num()); st.cells[a] = v; return LV(a)
        return v

    def e_ImplicitCastExpr(self, st, n):
        ck = n.get('castKind'); x = n['inner'][-1]
        if ck == 'LValueToRValue': return self.load(st, self.eval(st, x))
        if ck in ('NoOp', 'ConstructorConversion', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'ArrayToPointerDecay',
                  'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'UserDefinedConversion'):
            return self.eval(st, x)
        if ck == 'IntegralCast':
            v = self.rv(st, x)
            if isinstance(v, B): v = self.bool2int(st, v)
            t = cxx.ty(n)
            self.narrow(st, v, t, n)
            if t.startswith('unsigned') and isinstance(v, P): 
                src = cxx.ty(x)
                if not src.startswith('unsigned') and v.const() is None:
                    self.oblige(st, 'index', ile(0, v), n, 'nonnegative value converted to unsigned')
            return v
        if ck == 'IntegralToFloating':
            v = self.rv(st, x)
            if isinstance(v, B): v = self.bool2int(st, v)
            return S.ofP(toP(v))
        if ck == 'FloatingToIntegral':
            v = self.toint(st, self.rv(st, x)); self.narrow(st, v, cxx.ty(n), n); return v
        if ck == 'FloatingCast': return self.single(self.rv(st, x), cxx.ty(n))
        if ck == 'NullToPointer': return NullP()
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'): return self.tobool(self.rv(st, x))
        if ck == 'ToVoid':
            self.eval(st, x); return None
        if ck == 'BitCast': return self.eval(st, x)
        raise Unsupported('cast %s at %s' % (ck, self.p.where(n)))
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_ImplicitCastExpr
    def e_CXXFunctionalCastExpr(self, st, n):
        if n.get('castKind') in ('NoOp', 'ConstructorConversion'): return self.eval(st, n['inner'][-1])
        return self.e_ImplicitCastExpr(st, n)
    def e_CXXConstCastExpr(self, st, n): return self.eval(st, n['inner'][-1])

    def bool2int(self, st, b):
        return P.c(1) if self.decide(st, b) else P.c(0)

    def toint(self, st, s):
        s = toS(s)
        p = P.c(0)
        for m, c in s.t.items():
            if c.denominator != 1 or any(a.kind != 'isym' for a, _ in m): break
            t = P.c(c.numerator)
            for a, e in m:
                for _ in range(e): t = t * P.sym(a.args[0])
            p = p + t
        else: return p
        # opaque truncation
        return P.sym('trunc(%r)' % (s,))

    def e_IntegerLiteral(self, st, n): return P.c(int(n['value']))
    def e_CharacterLiteral(self, st, n): return P.c(int(n['value']))
    def e_FloatingLiteral(self, st, n): return S.c(Fraction(repr(float(n['value']))))
    def e_CXXBoolLiteralExpr(self, st, n): return TRUE if n['value'] else FALSE
    def e_CXXNullPtrLiteralExpr(self, st, n): return NullP()
    def e_GNUNullExpr(self, st, n): return NullP()
    def e_StringLiteral(self, st, n): return Str(n.get('value', ''))
    def e_CXXThisExpr(self, st, n): return Ptr(st.this)
    def e_ImplicitValueInitExpr(self, st, n): return S.c(0) if cxx.ty(n) == 'double' else P.c(0)
    def e_CXXScalarValueInitExpr(self, st, n): return S.c(0) if cxx.ty(n) == 'double' else P.c(0)
    def e_CXXDefaultArgExpr(self, st, n): raise Unsupported('default argument')
    def e_LambdaExpr(self, st, n):
        """a closure: variables captured by reference are those of the enclosing scope, scalars captured by copy are copied"""
        rec = n['inner'][0]
        m = [x for x in rec.get('inner', []) if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()']
        fields = [x for x in rec.get('inner', []) if x.get('kind') == 'FieldDecl']
        caps = n['inner'][1:-1]
        if len(m) != 1 or len(fields) != len(caps): raise Unsupported('lambda')
        env = dict(st.env)
        for f, c in zip(fields, caps):
            while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ParenListExpr') and c.get('inner'): c = c['inner'][0]
            t = cxx.ty(f)
            if t.rstrip().endswith('&') or c.get('kind') == 'CXXThisExpr': continue
            d = c.get('referencedDecl')
            if c.get('kind') != 'DeclRefExpr' or d['id'] not in env: raise Unsupported('capture at ' + self.p.where(n))
            ct = re.sub(r'^const\s+|\s+const$', '', t.strip())
            if not (ct in SCALAR or ct.endswith('*') or self.is_enum(ct)): raise Unsupported('captured copy at ' + self.p.where(n))
            a = ('L', st.depth, n['id'] + d['id']); st.cells[a] = self.conv(self.rv(st, c), ct); env[d['id']] = LV(a)
        f = Closure(); f.env = env; f.this = st.this; f.depth = st.depth
        f.params = [x for x in m[0].get('inner', []) if x.get('kind') == 'ParmVarDecl']
        f.body = next((x for x in m[0].get('inner', []) if x.get('kind') == 'CompoundStmt'), None)
        if f.body is None: raise Unsupported('lambda')
        return f

    def e_DeclRefExpr(self, st, n):
        d = n['referencedDecl']; i = d['id']
        if i in st.env: return st.env[i] if not isinstance(st.env[i], LV) else self.lv_of(st, st.env[i])
        if i in self.p.enums: return P.c(self.p.enums[i][2])
        if d['kind'] == 'EnumConstantDecl':
            if d.get('name') == 'Success': return InfoV(TRUE)
            if d.get('name') in ('NumericalIssue', 'NoConvergence', 'InvalidInput'): return InfoV(FALSE)
            e = self.p.byid.get(i)
            if e is not None and 'enumval' in e: return P.c(e['enumval'])
            raise Unsupported('enumerator ' + str(d.get('name')))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return FnRef(n)
        v = self.p.statics.get(i) or self.p.byid.get(i)
        if v is not None and v.get('kind') == 'VarDecl':
            init = [x for x in v.get('inner', []) if x.get('kind') not in ('FullComment',)]
            if not re.match(r'const\b', cxx.ty(v).strip()) and not v.get('constexpr'): raise Unsupported('variable %s outlives the call' % v.get('name'))
            if init: return self.rv(st, init[-1])
            # out-of-class definition: find by name in the same class
            for w in self.p.statics.values():
                if w.get('name') == v.get('name') and w.get('inner'):
                    return self.rv(st, w['inner'][-1])
        if d.get('name') == 'ignore': return Opaque('ignore')
        raise Unsupported('reference to %s at %s' % (d.get('name'), self.p.where(n)))

    def lv_of(self, st, lv):
        x = st.cells.get(lv.addr)
        if isinstance(x, View): return x
        if isinstance(x, MO): return ML(lv.addr)
        return lv

    def e_MemberExpr(self, st, n):
        b = self.eval(st, n['inner'][0])
        if n.get('isArrow'): b = self.deref(st, self.load(st, b), n)
        name = n.get('name')
        rd = n.get('referencedMemberDecl')
        if isinstance(b, OL):
            node = self.p.byid.get(rd)
            if node is not None and node.get('kind') == 'VarDecl':
                init = node.get('inner')
                if init: return self.rv(st, init[-1])
            return self.field(st, b.addr + (name,))
        raise Unsupported('member %s of %r at %s' % (name, b, self.p.where(n)))

    def field(self, st, a):
        if a in st.cls: return OL(a)
        x = st.cells.get(a)
        if isinstance(x, MO): return ML(a)
        if isinstance(x, View): return x
        if x is None: raise Unsupported('unknown field %s' % (a,))
        return LV(a)

    def deref(self, st, v, n=None):
        if isinstance(v, Ptr):
            if v.null is not FALSE: self.oblige(st, 'null', bnot(v.null), n, 'pointer is not null')
            return self.obj(st, v.addr)
        if isinstance(v, NullP):
            self._rec('null', n, 'pointer is not null', 'no'); raise Infeasible()
        if isinstance(v, DPtr):
            return ER(v.buf, Region(None, v.off, 0, 1, 1, 1))
        if isinstance(v, IterVal): return v.v
        if isinstance(v, Iter): return self.iter_deref(st, v, n)
        raise Unsupported('dereference of %r' % (v,))

    def obj(self, st, a):
        if a in st.cls: return OL(a)
        x = st.cells.get(a)
        if isinstance(x, MO): return ML(a)
        if isinstance(x, View): return x
        if x is None: raise Unsupported('no object at %s' % (a,))
        return LV(a)

    def e_UnaryOperator(self, st, n):
        op = n['opcode']; x = n['inner'][0]
        if op == '&':
            v = self.eval(st, x)
            if isinstance(v, (LV, OL)): return Ptr(v.addr)
            if isinstance(v, ML) and v.idx is None: return Ptr(v.addr)
            if isinstance(v, View):
                a = self.addr_of(st, x)
                if a is not None: return Ptr(a)
            if isinstance(v, FnRef): return v
            if isinstance(v, ER): return DPtr(v.buf, v.reg.off())
            raise Unsupported('address of %r' % (v,))
        if op == '*': return self.deref(st, self.load(st, self.eval(st, x)), n)
        if op == '!': return bnot(self.cond(st, x))
        if op == '-':
            v = self.rv(st, x); return -v
        if op == '+': return self.rv(st, x)
        if op in ('++', '--'):
            lv = self.eval(st, x); v = self.load(st, lv)
            w = Iter(v.c, v.at + (1 if op == '++' else -1)) if isinstance(v, Iter) else v + 1 if op == '++' else v - 1
            self.narrow(st, w, cxx.ty(x), n)
            self.store(st, lv, w)
            return v if n.get('isPostfix') else lv
        raise Unsupported('unary ' + op)

    def addr_of(self, st, n):
        """address of the cell holding a Map object"""
        n = self.unwrap(n)
        if n['kind'] == 'MemberExpr':
            b = self.eval(st, n['inner'][0])
            if n.get('isArrow'): b = self.deref(st, self.load(st, b), n)
            if isinstance(b, OL): return b.addr + (n['name'],)
        if n['kind'] == 'DeclRefExpr':
            v = st.env.get(n['referencedDecl']['id'])
            if isinstance(v, LV): return v.addr
            if isinstance(v, View):
                a = ('tmp', st.depth, st.num()); st.cells[a] = v; return a
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '*':
            v = self.load(st, self.eval(st, n['inner'][0]))
            if isinstance(v, Ptr): return v.addr
        return None

    def e_BinaryOperator(self, st, n):
        op = n['opcode']; l, r = n['inner']
        if op == '=':
            lv = self.eval(st, l); v = self.rv(st, r)
            self.store(st, lv, self.conv(v, cxx.ty(l)), n); return lv
        if op == ',':
            self.eval(st, l); return self.eval(st, r)
        if op in ('&&', '||'):
            a = self.cond(st, l)
            if op == '&&':
                if a is FALSE: return FALSE
                g = a
            else:
                if a is TRUE: return TRUE
                g = bnot(a)
            if not self.possible(st, g): return FALSE if op == '&&' else TRUE
            b = self.guarded(st, g, lambda s: self.cond(s, r))
            if b is None:
                if self.decide(st, g): return self.cond(st, r)
                return FALSE if op == '&&' else TRUE
            return band(a, b) if op == '&&' else bor(a, b)
        a = self.rv(st, l); b = self.rv(st, r)
        v = self.binop(st, op, a, b, n)
        if op == '-' and isinstance(v, P) and cxx.ty(n).startswith(('unsigned', 'std::size_t', 'size_t')):
            self.oblige(st, 'index', ile(0, v), n, 'unsigned difference does not wrap')
        return v

    def guarded(self, st, g, f):
        """evaluate f under assumption g if that has no effects; None if it does"""
        s = st.copy(); s.assume(g); n0 = len(s.facts)
        q = self.quiet
        outs = self.explore(s, f)
        if len(outs) != 1 or outs[0][1][0] != 'val': return None
        s2 = outs[0][0]
        if not self.same_store(st, s2): return None
        for x in s2.facts[len(st.facts):]:
            pass
        return outs[0][1][1]

    def same_store(self, a, b):
        ign = lambda k: k[0] == 'tmp' or (k[0] == 'L' and k[1] > a.depth)
        for d1, d2 in ((a.cells, b.cells), (a.bufs, b.bufs)):
            for k in set(d1) | set(d2):
                if ign(k): continue
                x, y = d1.get(k), d2.get(k)
                if x is y or x == y: continue
                return False
        return a.events == b.events and a.ghost == b.ghost and a.defs == b.defs

    def e_ConditionalOperator(self, st, n):
        c, a, b = n['inner']
        g = self.cond(st, c)
        if not self.possible(st, g): return self.eval(st, b)
        if not self.possible(st, bnot(g)): return self.eval(st, a)
        if cxx.ty(n) in ('double', 'bool'):
            x = self.guarded(st, g, lambda s: self.rv(s, a))
            y = self.guarded(st, bnot(g), lambda s: self.rv(s, b))
            if isinstance(x, B) and isinstance(y, B): return b_ite(g, x, y)
            if x is not None and y is not None: return s_ite(g, toS(self.num(x)), toS(self.num(y)))
        return self.eval(st, a) if self.decide(st, g) else self.eval(st, b)

    def binop(self, st, op, a, b, n):
        if isinstance(a, InfoV) or isinstance(b, InfoV):
            if not (isinstance(a, InfoV) and isinstance(b, InfoV)): raise Unsupported('comparison of info')
            x, y = a.ok, b.ok
            if y is TRUE: e = x
            elif x is TRUE: e = y
            elif y is FALSE: e = bnot(x)
            elif x is FALSE: e = bnot(y)
            else: raise Unsupported('info comparison')
            if y is FALSE and op in ('==', '!='): e = bnot(x)
            return e if op == '==' else bnot(e)
        if isinstance(a, (Ptr, NullP, DPtr, Opaque, Iter)) or isinstance(b, (Ptr, NullP, DPtr, Opaque, Iter)):
            return self.ptr_op(st, op, a, b, n)
        if isinstance(a, B) and isinstance(b, B):
            if op == '==': return bor(band(a, b), band(bnot(a), bnot(b)))
            if op == '!=': return bor(band(a, bnot(b)), band(bnot(a), b))
            if op == '&': return band(a, b)
            if op == '|': return bor(a, b)
        if isinstance(a, B): a = self.bool2int(st, a)
        if isinstance(b, B): b = self.bool2int(st, b)
        if isinstance(a, P) and isinstance(b, P):
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '<': return ilt(a, b)
            if op == '<=': return ile(a, b)
            if op == '>': return ilt(b, a)
            if op == '>=': return ile(b, a)
            if op == '==': return ieq(a, b)
            if op == '!=': return bnot(ieq(a, b))
            if op in ('/', '%'):
                ca, cb = a.const(), b.const()
                if ca is not None and cb and ca >= 0 and cb > 0: return P.c(ca // cb if op == '/' else ca % cb)
                q = a.div_exact(b)
                if q is not None: return q if op == '/' else P.c(0)
                # opaque quotient with its defining facts
                if cb and cb > 0:
                    qs = P.sym('div(%r,%d)' % (a, cb))
                    if smt.prove(st.facts, ile(0, a)):
                        st.assume(ile(qs * cb, a)); st.assume(ilt(a, qs * cb + cb)); st.assume(ile(0, qs))
                        return qs if op == '/' else a - qs * cb
            raise Unsupported('integer %s' % op)
        a, b = toS(self.num(a)), toS(self.num(b))
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/':
            return s_div(a, b)
        if op == '<': return rlt(a, b)
        if op == '<=': return rle(a, b)
        if op == '>': return rlt(b, a)
        if op == '>=': return rle(b, a)
        if op == '==': return req(a, b)
        if op == '!=': return bnot(req(a, b))
        raise Unsupported('operator ' + op)

    def ptr_op(self, st, op, a, b, n):
        if op in ('==', '!='):
            if isinstance(b, NullP): e = a.null if not isinstance(a, Opaque) else None
            elif isinstance(a, NullP): e = b.null if not isinstance(b, Opaque) else None
            elif isinstance(a, Ptr) and isinstance(b, Ptr): e = TRUE if a.addr == b.addr else FALSE
            else: e = None
            if e is None: raise Unsupported('pointer comparison %r %r' % (a, b))
            return e if op == '==' else bnot(e)
        if isinstance(a, Iter) and isinstance(b, P) and op in '+-': return Iter(a.c, a.at + b if op == '+' else a.at - b)
        if isinstance(a, Iter) and isinstance(b, Iter) and a.c == b.c:
            if op == '-': return a.at - b.at
            if op in ('==', '!=', '<', '<=', '>', '>='): return self.binop(st, op, a.at, b.at, n)
        if isinstance(a, DPtr) and isinstance(b, P):
            if op == '+': return DPtr(a.buf, a.off + b, a.null)
            if op == '-': return DPtr(a.buf, a.off - b, a.null)
        if isinstance(b, DPtr) and isinstance(a, P) and op == '+': return DPtr(b.buf, b.off + a, b.null)
        raise Unsupported('pointer arithmetic %s on %r, %r' % (op, a, b))

    def e_CompoundAssignOperator(self, st, n):
        lv = self.eval(st, n['inner'][0]); v = self.rv(st, n['inner'][1]); old = self.load(st, lv)
        w = self.binop(st, n['opcode'][:-1], old, v, n)
        if cxx.ty(n['inner'][0]) in ('int', 'long') and isinstance(w, S): w = self.toint(st, w)
        if isinstance(w, S): w = self.single(w, cxx.ty(n['inner'][0]))
        self.narrow(st, w, cxx.ty(n['inner'][0]), n)
        self.store(st, lv, w, n); return lv

    def e_ArraySubscriptExpr(self, st, n):
        b = self.rv(st, n['inner'][0]); i = self.rv(st, n['inner'][1])
        if isinstance(b, DPtr): return ER(b.buf, Region(None, b.off + toP(i), 0, 1, 1, 1))
        if isinstance(b, LV) and isinstance(st.cells.get(b.addr), DV):
            d = st.cells[b.addr]
            self.oblige(st, 'index', band(ile(0, i), ilt(i, d.size)), n, 'array index in range')
            return ER(b.addr, Region(None, i, 0, 1, 1, d.size))
        if isinstance(b, LV) and isinstance(st.cells.get(b.addr), PA): return self.index_elem(st, b, toP(i), n)
        raise Unsupported('subscript')

    def e_CXXThrowExpr(self, st, n):
        t = '?'
        def go(x):
            nonlocal t
            if x.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'std::' in cxx.ty(x) and t == '?':
                t = cxx.strip_type(cxx.ty(x))
            for y in x.get('inner', []): go(y)
        go(n)
        raise Throw(st, t, n)

    def e_CXXNewExpr(self, st, n):
        t = cxx.strip_type(cxx.ty(n)); inner = n.get('inner', [])
        if n.get('numPlacementArgs') or 'isPlacement' in n or (len(inner) >= 2 and is_view(t)):
            # placement new of a Map: order is construct expression, placement argument
            init = next(x for x in inner if self.unwrap(x)['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and is_view(cxx.strip_type(cxx.ty(x))))
            other = next(x for x in inner if x is not init)
            p = self.rv(st, other)
            if not isinstance(p, Ptr): raise Unsupported('placement new')
            st.cells[p.addr] = self.as_view(st, self.eval(st, init)); return p
        a = ('heap', st.num())
        init = inner[-1] if inner else None
        self.construct_into(st, a, t, init)
        return Ptr(a)

    def e_CXXDeleteExpr(self, st, n): raise Unsupported('delete')

    def e_CXXConstructExpr(self, st, n):
        t = cxx.strip_type(cxx.ty(n)); args = [x for x in n.get('inner', [])]
        real = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
        if is_view(t):
            if len(real) == 1:
                return self.eval(st, real[0])
            return self.map_ctor(st, t, real, n)
        if t.startswith(('std::chrono', 'std::runtime_error', 'std::out_of_range', 'std::basic_string', 'std::logic_error', 'std::invalid_argument')) :
            if len(real) == 1:
                try:
                    v = self.eval(st, real[0])
                    if isinstance(v, Opaque): return v
                except Unsupported: pass
            return Opaque('time')
        if t.startswith('std::unique_ptr<'):
            if not real: return NullP()
            v = self.eval(st, real[0])
            if isinstance(v, LV):
                x = st.cells[v.addr]
                return x
            return v
        if is_plain(t):
            a = ('tmp', st.depth, st.num())
            if len(real) == 1:
                v = self.eval(st, real[0])
                if isinstance(v, ML) and v.addr[0] == 'tmp': return v
                lv = self.construct_matrix(st, a, t, None)
                self.matrix_ctor(st, lv, [v], real, n)
                return lv
            return self.construct_matrix(st, a, t, n)
        if t.startswith('Eigen::LLT<'): return self.llt(st, self.eval(st, real[0]), n)
        if t.startswith('Eigen::LDLT<'):
            if not real: return LD('none')
            v = self.load(st, self.eval(st, real[0]))
            if isinstance(v, P):
                self.oblige(st, 'size', ile(0, v), n, 'LDLT size is nonnegative')
                return LD('none')
            if isinstance(v, LD): return v
            return self.ldlt_compute(st, v, n)
        if t.startswith('Eigen::'):
            if len(real) == 1: return self.eval(st, real[0])
            raise Unsupported('construction of ' + t)
        key = self.p.class_key(t)
        if key:
            ct = n.get('ctorType', {}).get('qualType', '')
            if len(args) == 1 and self.is_copy(ct, key):
                v = self.eval(st, args[0])
                if isinstance(v, OL):
                    a = ('tmp', st.depth, st.num()); self.copy_object(st, v.addr, a, key); return OL(a)
            a = ('tmp', st.depth, st.num())
            self.construct(st, a, key, n, args)
            return OL(a)
        if len(real) == 1 and t in SCALAR: return self.rv(st, real[0])
        if t.startswith(('std::vector<double', 'std::array')) and len(real) == 1: return self.eval(st, real[0])
        if t.startswith('std::vector<Eigen::Matrix<'):
            if len(real) == 1:
                v = self.eval(st, real[0])
                if isinstance(v, LV) and isinstance(st.cells.get(v.addr), VO): return v
                if not isinstance(v, P): raise Unsupported('vector constructor')
            a = ('tmp', st.depth, st.num())
            return self.construct_into(st, a, t, n)
        raise Unsupported('construction of %s at %s' % (t, self.p.where(n)))
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def e_InitListExpr(self, st, n):
        x = n.get('inner', [])
        if len(x) == 1: return self.eval(st, x[0])
        raise Unsupported('initializer list')

    def map_ctor(self, st, t, args, n):
        p = self.rv(st, args[0]); dims = [toP(self.rv(st, x)) for x in args[1:]]
        vec = bool(re.search(r'Matrix<double, -1, 1', t))
        if len(dims) == 1:
            if not vec: raise Unsupported('matrix map from one size')
            dims = dims + [P.c(1)]
        elif not dims: raise Unsupported('map')
        const = t.startswith('Eigen::Map<const')
        r, c = dims
        for x, w in ((r, 'rows'), (c, 'columns')): self.oblige(st, 'size', ile(0, x), n, 'Map has a nonnegative number of ' + w)
        if isinstance(p, NullP): 
            self.oblige(st, 'null', ieq(r * c, 0), n, 'Map of a null pointer is empty')
            return View(None, Region(None, 0, 0, r, c, r), const)
        if not isinstance(p, DPtr): raise Unsupported('map over %r' % (p,))
        reg = Region(None, p.off, 0, r, c, r) if not p.off.t else Region(None, p.off, 0, r, c, r)
        if p.null is not FALSE: self.oblige(st, 'null', bnot(p.null), n, 'Map pointer is not null')
        sz = self.buf_size(st, p.buf)
        if sz is not None and (r * c).t:
            self.oblige(st, 'bounds', bor(ile(r * c, 0), band(ile(0, p.off), ile(p.off + r * c, sz))), n, 'Map stays inside its storage')
        return View(p.buf, reg, const)

    def buf_size(self, st, a):
        x = st.cells.get(a)
        if isinstance(x, MO): return x.rows * x.cols
        if isinstance(x, DV): return x.size
        b = st.bufs.get(a)
        if b is not None and isinstance(b.base, Mat): return b.base.rows * b.base.cols
        return None

    def as_view(self, st, v):
        if isinstance(v, LV): v = st.cells[v.addr]
        if isinstance(v, View): return v
        if isinstance(v, ML): return self.view(st, v)
        raise Unsupported('view of %r' % (v,))

    # ---------------------------------------------------------- call expressions
    def e_CallExpr(self, st, n):
        callee = n['inner'][0]; args = n['inner'][1:]
        d = callee
        while d.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): d = d['inner'][0]
        if d.get('kind') == 'MemberExpr': return self.e_CXXMemberCallExpr(st, n)
        if d.get('kind') != 'DeclRefExpr': raise Unsupported('indirect call')
        r = d['referencedDecl']; name = r.get('name'); mg = self.p.declmangled.get(r['id'])
        if mg and mg in self.p.fns and self.p.fns[mg].body is not None:
            f = self.p.fns[mg]
            return self.call_fn(st, f, None, [self.arg(st, x, p) for x, p in zip(args, f.params)], n)
        h = getattr(self, 'fn_' + str(name), None)
        if h is None: raise Unsupported('call of %s at %s' % (name, self.p.where(n)))
        return h(st, n, args)

    def fn_sqrt(self, st, n, args): return s_sqrt(toS(self.num(self.rv(st, args[0]))))
    def fn_fabs(self, st, n, args): return s_abs(toS(self.num(self.rv(st, args[0]))))
    def fn_abs(self, st, n, args):
        v = self.rv(st, args[0])
        if isinstance(v, P): raise Unsupported('integer abs')
        return s_abs(toS(v))
    def fn_pow(self, st, n, args):
        a = toS(self.num(self.rv(st, args[0]))); b = self.num(self.rv(st, args[1])); c = b.const()
        if c is not None and c.denominator == 1 and 0 <= c <= 4:
            r = S.c(1)
            for _ in range(int(c)): r = r * a
            return r
        if c == Fraction(1, 2): return s_sqrt(a)
        raise Unsupported('pow')
    def fn_hypot(self, st, n, args):
        a, b = (toS(self.num(self.rv(st, x))) for x in args)
        return s_sqrt(a * a + b * b)
    def _extreme(self, st, args, low):
        vals = None
        if len(args) == 1: vals = self.init_elems(st, args[0])      # std::max({a, b, c})
        elif len(args) == 2: vals = [self.rv(st, x) for x in args]
        if not vals: raise Unsupported('max')
        v = vals[0]
        for x in vals[1:]:
            if isinstance(v, P) and isinstance(x, P): v = x if self.decide(st, ilt(x, v) if low else ilt(v, x)) else v
            else: v = (s_min if low else s_max)(self.num(v), self.num(x))
        return v
    def fn_max(self, st, n, args): return self._extreme(st, args, False)
    def fn_min(self, st, n, args): return self._extreme(st, args, True)
    def fn_fmax(self, st, n, args): raise Unsupported('fmax')
    def fn_isnan(self, st, n, args): return isnan(toS(self.num(self.rv(st, args[0]))))
    def fn_isfinite(self, st, n, args): raise Unsupported('isfinite')
    def fn_forward(self, st, n, args): return self.eval(st, args[0])
    def fn_move(self, st, n, args): return self.eval(st, args[0]) if len(args) == 1 else self.fn_copy(st, n, args)
    fn_as_const = fn_forward
    def fn_addressof(self, st, n, args): return Ptr(self.eval(st, args[0]).addr)
    def fn_swap(self, st, n, args):
        a, b = (self.eval(st, x) for x in args)
        if isinstance(a, LV) and isinstance(b, LV):
            x, y = self.load(st, a), self.load(st, b)
            self.store(st, a, y); self.store(st, b, x); return None
        if isinstance(a, (LV, ER)) and isinstance(b, (LV, ER)):
            x, y = self.load(st, a), self.load(st, b)
            if isinstance(x, (S, P)) and isinstance(y, (S, P)):
                self.store(st, a, y); self.store(st, b, x); return None
        raise Unsupported('swap')
    def span(self, st, a, b):
        """the elements between two iterators over an array of known length: references"""
        a, b = self.load(st, a), self.load(st, b)
        if isinstance(a, Iter) and isinstance(b, Iter) and a.c == b.c and isinstance(st.cells.get(a.c), DV):
            lo, hi, d = a.at.const(), b.at.const(), st.cells[a.c]
            if lo is not None and hi is not None and d.size.const() is not None and 0 <= lo <= hi <= d.size.const() and hi - lo <= 16:
                return [ER(a.c, Region(None, P.c(k), 0, 1, 1, d.size)) for k in range(int(lo), int(hi))]
        raise Unsupported('range of iterators')
    def span_n(self, st, a, k, back=False):
        a = self.load(st, a)
        if not isinstance(a, Iter): raise Unsupported('range of iterators')
        return self.span(st, a if not back else Iter(a.c, a.at - k), Iter(a.c, a.at + k) if not back else a)
    def fn_copy(self, st, n, args):
        if len(args) != 3: raise Unsupported('copy')
        a, b, c = (self.eval(st, x) for x in args)
        src = self.span(st, a, b); dst = self.span_n(st, c, len(src))
        for x, y in zip(src, dst): self.store(st, y, self.load(st, x))
        return None
    def fn_copy_backward(self, st, n, args):
        if len(args) != 3: raise Unsupported('copy')
        a, b, c = (self.eval(st, x) for x in args)
        src = self.span(st, a, b); dst = self.span_n(st, c, len(src), True)
        for x, y in reversed(list(zip(src, dst))): self.store(st, y, self.load(st, x))
        return None
    fn_move_backward = fn_copy_backward
    def fn_copy_n(self, st, n, args):
        a, k, c = (self.eval(st, x) for x in args); k = self.load(st, k).const()
        if k is None: raise Unsupported('copy_n')
        for x, y in zip(self.span_n(st, a, int(k)), self.span_n(st, c, int(k))): self.store(st, y, self.load(st, x))
        return None
    def fn_fill(self, st, n, args):
        a, b, v = (self.eval(st, x) for x in args); v = self.load(st, v)
        for x in self.span(st, a, b): self.store(st, x, v)
        return None
    def fn_fill_n(self, st, n, args):
        a, k, v = (self.eval(st, x) for x in args); v = self.load(st, v); k = self.load(st, k).const()
        if k is None: raise Unsupported('fill_n')
        for x in self.span_n(st, a, int(k)): self.store(st, x, v)
        return None
    def fn_rotate(self, st, n, args):
        a, b, c = (self.load(st, self.eval(st, x)) for x in args)
        l, r = self.span(st, a, b), self.span(st, b, c)
        vals = [self.load(st, x) for x in r + l]
        for x, v in zip(l + r, vals): self.store(st, x, v)
        return None
    def fn_now(self, st, n, args): return Opaque('time')
    def fn_max_element(self, st, n, args, f=None):
        if len(args) != 2: raise Unsupported('max_element')
        a, b = (self.eval(st, x) for x in args)
        a, b = self.load(st, a), self.load(st, b)
        if isinstance(a, Iter) and isinstance(b, Iter) and a.c == b.c:
            lo, hi = a.at.const(), b.at.const()
            if lo is not None and hi is not None and 0 < hi - lo <= 16:
                d = st.cells[a.c]
                r = None
                for k in range(lo, hi):
                    v = self.load_elem(st, ER(a.c, Region(None, k, 0, 1, 1, d.size)))
                    r = v if r is None else (f or s_max)(r, v)
                return IterVal(r)
        raise Unsupported('max_element')
    def fn_min_element(self, st, n, args): return self.fn_max_element(st, n, args, s_min)
    def fn_snprintf(self, st, n, args):
        b = self.eval(st, args[0]); size = self.rv(st, args[1]); fmt = self.rv(st, args[2])
        vals = [self.rv(st, x) for x in args[3:]]
        if not isinstance(b, LV) or not isinstance(fmt, Str): raise Unsupported('snprintf')
        x = st.cells.get(b.addr)
        cap = x.what[1] if isinstance(x, Opaque) and isinstance(x.what, tuple) else None
        if cap is not None: self.oblige(st, 'bounds', ile(size, cap), n, 'snprintf stays inside its buffer')
        st.cells[b.addr] = Opaque(('buf', cap, fmt.t, tuple(vals), size))
        return P.sym('snprintf#%d' % st.num())
    def fn_printf(self, st, n, args):
        vals = tuple(self.rv(st, x) for x in args)
        st.events = st.events + (('printf', vals),)
        return P.c(0)
    def fn_Identity(self, st, n, args):
        d = [toP(self.rv(st, x)) for x in args]
        if not d:
            r, c = fixed_dims(re.search(r'Eigen::Matrix<[^>]*>', cxx.ty(n)).group(0)); d = [P.c(r), P.c(c)]
        if len(d) == 1: d = d * 2
        return E('ident', (), d[0], d[1])
    def _const(self, st, n, args, s):
        d = [toP(self.rv(st, x)) for x in args]
        if not d:
            r, c = fixed_dims(re.search(r'Eigen::Matrix<[^>]*>', cxx.ty(n)).group(0)); d = [P.c(r), P.c(c)]
        if len(d) == 1: d = d + [P.c(1)]
        return E('const', (S.c(s) if not isinstance(s, S) else s,), d[0], d[1])
    def fn_Zero(self, st, n, args): return self._const(st, n, args, 0)
    def fn_Ones(self, st, n, args): return self._const(st, n, args, 1)
    def fn_Constant(self, st, n, args):
        return self._const(st, n, args[:-1], toS(self.num(self.rv(st, args[-1]))))

    def e_CXXMemberCallExpr(self, st, n):
        m = n['inner'][0]; args = n['inner'][1:]
        while m.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): m = m['inner'][0]
        b = self.eval(st, m['inner'][0])
        if m.get('isArrow'): b = self.deref(st, self.load(st, b), m)
        name = m.get('name')
        if isinstance(b, OL):
            dyn = st.cls.get(b.addr)
            d = self.p.byid.get(m.get('referencedMemberDecl')); mg = self.p.declmangled.get(m.get('referencedMemberDecl'))
            f = self.p.fns.get(mg) if mg else None
            if f is None:
                ft = None
                f = self.p.lookup_method(dyn, name, ft)
            elif self.is_virtual(f) or f.body is None:
                g = self.p.lookup_method(dyn, name, f.type)
                f = g or f
            if f is None:
                if name == 'operator=' : return self.assign_obj(st, b, self.eval(st, args[0]))
                raise Unsupported('method %s of %s' % (name, dyn))
            if name == 'operator=' and f.body is None or (name == 'operator=' and self.trivial_assign(f)):
                return self.assign_obj(st, b, self.eval(st, args[0]))
            return self.call_fn(st, f, b.addr, [self.arg(st, x, p) for x, p in zip(args, f.params)], n)
        h = getattr(self, 'm_' + str(name).replace('operator', 'op_'), None)
        if h is None: raise Unsupported('method %s at %s' % (name, self.p.where(n)))
        return h(st, n, m, b, args)

    def trivial_assign(self, f):
        return f.node.get('isImplicit') or f.node.get('explicitlyDefaulted')

    def is_virtual(self, f):
        return bool(f.node.get('virtual')) or any(True for x in f.node.get('inner', []) if x.get('kind') == 'OverrideAttr') or f.node.get('pure')

    def assign_obj(self, st, a, v):
        if not isinstance(v, OL): raise Unsupported('class assignment')
        n = len(v.addr)
        if v.addr != a.addr:
            key = st.cls[a.addr]
            src = {k: x for k, x in st.cells.items() if k[:n] == v.addr}
            for k, x in src.items(): st.cells[a.addr + k[n:]] = x
            for k in [k for k in st.bufs if k[:n] == v.addr]: st.bufs[a.addr + k[n:]] = st.bufs[k]
        return a

    OPN = {'operator()': 'paren', 'operator[]': 'index', 'operator=': 'assign', 'operator+=': 'addassign', 'operator-=': 'subassign',
           'operator*=': 'mulassign', 'operator/=': 'divassign', 'operator*': 'mul', 'operator+': 'add', 'operator-': 'sub', 'operator/': 'div',
           'operator->': 'arrow', 'operator==': 'eq', 'operator!=': 'ne', 'operator++': 'inc', 'operator<<': 'shl', 'operator,': 'comma'}

    def e_CXXOperatorCallExpr(self, st, n):
        d = n['inner'][0]
        while d.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): d = d['inner'][0]
        name = d.get('referencedDecl', {}).get('name'); args = n['inner'][1:]
        if name == 'operator()':
            x = args[0]
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): x = x['inner'][0]
            c = st.env.get(x['referencedDecl']['id']) if x.get('kind') == 'DeclRefExpr' else self.e_LambdaExpr(st, x) if x.get('kind') == 'LambdaExpr' else None
            if isinstance(c, Closure):
                if c.depth > st.depth: raise Unsupported('closure outlives its scope')
                return self.call_fn(st, c, c.this, [self.arg(st, y, p) for y, p in zip(args[1:], c.params)], n)
        mg = self.p.declmangled.get(d.get('referencedDecl', {}).get('id'))
        f = self.p.fns.get(mg) if mg else None
        if f is not None and f.cls in self.p.cls:
            b = self.eval(st, args[0])
            if name == 'operator=' and (f.body is None or self.trivial_assign(f)): return self.assign_obj(st, b, self.eval(st, args[1]))
            return self.call_fn(st, f, b.addr, [self.arg(st, x, p) for x, p in zip(args[1:], f.params)], n)
        if f is not None and f.body is not None:
            return self.call_fn(st, f, None, [self.arg(st, x, p) for x, p in zip(args, f.params)], n)
        if name == 'operator=':
            b = self.eval(st, args[0])
            if isinstance(b, OL): return self.assign_obj(st, b, self.eval(st, args[1]))
        h = getattr(self, 'o_' + self.OPN.get(name, '?'), None)
        if h is None: raise Unsupported('%s at %s' % (name, self.p.where(n)))
        return h(st, n, args)

class Infeasible(Exception): pass

class Closure:
    cls = None; name = 'lambda'; kind = 'CXXMethodDecl'; mangled = 'lambda'

class Fam:
    """base content of a vector of matrices: a letter per index"""
    def __init__(s, name, rows, cols, attr=('stale',)): s.name, s.rows, s.cols, s.attr = name, toP(rows), toP(cols), attr
    def __call__(s, idx): return Mat.letter(mk_b(Base(s.name, s.rows, s.cols, (idx,), s.attr)))
    def __eq__(s, o): return isinstance(o, Fam) and (s.name, s.rows, s.cols) == (o.name, o.rows, o.cols)
    def __hash__(s): return hash((s.name, s.rows, s.cols))

def b_ite(c, a, b):
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return bnot(c)
    return bor(band(c, a), band(bnot(c), b))

def same_w(x, y):
    return x is y or (x.b == y.b and x.lo is y.lo and x.hi is y.hi and x.reg.key() == y.reg.key() and x.val is y.val)

def same_buf(x, y):
    return x is y or (x.name == y.name and (x.base is y.base or x.base == y.base) and len(x.log) == len(y.log) and all(same_w(a, b) for a, b in zip(x.log, y.log)))
Buf.__eq__ = lambda a, b: isinstance(b, Buf) and same_buf(a, b)
Buf.__hash__ = lambda a: hash((a.name, len(a.log)))
