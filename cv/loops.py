"""Data loops: a loop over a symbolic range is summarised by families of writes.

Pass 1 runs the body once at a symbolic index I from the state before the loop to
find what it writes.  Pass 2 runs it again from the state *at the start of
iteration I*, in which the regions of the earlier iterations hold unknown
letters F[b]; the values it produces are the inductive step.  The summary is
exact: either closed values, or letters with their defining recurrence (Def).
"""
from .eig import *
from .exec import Infeasible, NARROW, Fam, ThrowVal, same_w, same_buf

class BreakInLoop(Unsupported): pass

class Loops(Eig):
    MAXUNROLL = 40

    def exec_for(self, st, n):
        if self.loop_hook is not None:
            r = self.loop_hook(self, st, n)
            if r is not None: return r
        init, cv, cond, inc, body = n['inner']
        cond, body = self.leading_break(cond, body)
        res = []
        for s, o in (self.exec_stmt(st, init) if init else [(st, ('next',))]):
            if o[0] != 'next': res.append((s, o)); continue
            res += self.loop(s, n, cond, self.commas(inc) if inc else [], body)
        return [(self.drop(st, s), o) for s, o in res]

    def commas(self, n):
        x = self.strip(n)
        if x.get('kind') == 'BinaryOperator' and x['opcode'] == ',': return self.commas(x['inner'][0]) + self.commas(x['inner'][1])
        return [n]

    INV = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}
    def leading_break(self, cond, body):
        """for (;;) { if (c) break; ... } is for (; !c;) { ... }"""
        if cond and not (self.strip(cond).get('kind') == 'CXXBoolLiteralExpr' and self.strip(cond).get('value')): return cond, body
        b = body.get('inner', []) if body.get('kind') == 'CompoundStmt' else []
        if b and b[0].get('kind') == 'IfStmt' and len(b[0]['inner']) == 2:
            t = b[0]['inner'][1]
            if t.get('kind') == 'CompoundStmt' and len(t.get('inner', [])) == 1: t = t['inner'][0]
            c = self.strip(b[0]['inner'][0])
            if t.get('kind') == 'BreakStmt' and c.get('kind') == 'BinaryOperator' and c['opcode'] in self.INV:
                return dict(c, opcode=self.INV[c['opcode']]), dict(body, inner=b[1:])
        return cond, body

    def exec_do(self, st, n):
        body, cond = n['inner']
        res = []; w = dict(n, kind='WhileStmt', inner=[cond, body])
        try: outs = self.explore(st.copy(), lambda x: self.cond(x, cond))
        except Unsupported: outs = []
        if len(outs) == 1 and outs[0][1][0] == 'val' and smt.prove(outs[0][0].facts, outs[0][1][1], 2000): return self.exec_while(st, w)
        for s, o in self.exec_stmt(st, body):
            if o[0] in ('next', 'continue'): res += self.exec_while(s, w)
            else: res.append((s, ('next',) if o[0] == 'break' else o))
        return res

    def exec_range(self, st, n):
        """for (T x : container): the elements in order"""
        parts = n['inner']; rng = parts[1]['inner'][0]; decl = parts[-2]['inner'][0]; body = parts[-1]
        init = [x for x in rng.get('inner', []) if x.get('kind') != 'FullComment'][-1]
        x = self.strip(init)
        while x.get('kind') in ('MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'CXXStdInitializerListExpr', 'CXXConstructExpr') and x.get('inner'): x = x['inner'][-1]
        if x.get('kind') == 'InitListExpr':                    # for (T* p : {a, b, c})
            cur, res = [st.copy()], []
            for e in x.get('inner', []):
                nxt = []
                for s in cur:
                    s1 = s.copy(); self.bind_decl(s1, decl, cxx.ty(decl), e)
                    for s2, o in self.exec_stmt(s1, body):
                        if o[0] in ('next', 'continue'): nxt.append(s2)
                        else: res.append((s2, ('next',) if o[0] == 'break' else o))
                cur = nxt
            return [(self.drop(st, s), o) for s, o in [(s, ('next',)) for s in cur] + res]
        outs = self.explore(st, lambda s: self.eval(s, init))
        if len(outs) != 1 or outs[0][1][0] != 'val': raise Unsupported('range of a loop')
        s, b = outs[0][0], outs[0][1][1]
        o = s.cells.get(b.addr) if isinstance(b, LV) else None
        if not isinstance(o, (VO, DV, PA)): raise Unsupported('range for at ' + self.p.where(n))
        va = ('L', s.depth, 'range%s' % n.get('id')); s = s.copy(); s.cells[va] = P.c(0); s.env[('range', n.get('id'))] = LV(va)
        elem = {'kind': 'RangeElement', 'container': b, 'var': va, 'type': {'qualType': cxx.ty(decl)}}
        body2 = {'kind': 'CompoundStmt', 'inner': [{'kind': 'RangeBind', 'decl': decl, 'elem': elem}, body]}
        bound = {'kind': 'RangeSize', 'container': b}
        lo, hi = P.c(0), toP(o.size); res = []
        if self.possible(s, ile(hi, lo)):
            t = s.copy(); t.assume(ile(hi, lo))
            if smt.feasible(t.facts): res.append((t, ('next',)))
        if self.possible(s, ilt(lo, hi)):
            t = s.copy(); t.assume(ilt(lo, hi))
            k = hi.const()
            if k is not None and k <= self.MAXUNROLL:
                cur = [t]
                for i in range(int(k)):
                    nxt = []
                    for t in cur:
                        t.cells[va] = P.c(i)
                        for s2, o2 in self.exec_stmt(t, body2):
                            if o2[0] in ('next', 'continue'): nxt.append(s2)
                            else: res.append((s2, ('next',) if o2[0] == 'break' else o2))
                    cur = nxt
                res += [(t, ('next',)) for t in cur]
            else: res += self.summary(t, n, va, lo, hi, 1, hi, body2, bound, hi, 0)
        for t, _ in res: t.cells.pop(va, None)
        return [(self.drop(st, t), o) for t, o in res]

    def e_RangeElement(self, st, n):
        b = n['container']; i = st.cells[n['var']]
        return self.index_elem(st, b, i, n)
    def e_RangeSize(self, st, n): return toP(st.cells[n['container'].addr].size)

    def drop(self, st, s):
        s.env = {k: v for k, v in s.env.items() if k in st.env}
        return s

    def exec_while(self, st, n):
        if self.loop_hook is not None:
            r = self.loop_hook(self, st, n)
            if r is not None: return r
        cond, body = n['inner'][-2:]
        b = body.get('inner', []) if body['kind'] == 'CompoundStmt' else [body]
        # trailing increment
        if b and self.loopvar(cond) is not None and self.step(b[-1], self.loopvar(cond)) is not None and not self.has_continue(body):
            return self.loop(st, n, cond, [b[-1]], dict(body, inner=b[:-1]) if body['kind'] == 'CompoundStmt' else {'kind': 'NullStmt'})
        return self.loop(st, n, cond, [], body)

    def has_continue(self, n):
        if n.get('kind') == 'ContinueStmt': return True
        return any(self.has_continue(x) for x in n.get('inner', []))

    def strip(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): n = n['inner'][0]
        return n

    def loopvar(self, cond):
        c = self.strip(cond)
        if c.get('kind') != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '>', '>=', '!='): return None
        for k in (0, 1):
            l = self.strip(c['inner'][k])
            if l.get('kind') == 'DeclRefExpr' and l['referencedDecl']['kind'] == 'VarDecl' and cxx.ty(l).replace('const ', '') in ('int', 'long', 'unsigned long', 'unsigned int', 'std::size_t') + tuple(NARROW):
                return l['referencedDecl']['id']
        return None

    def varty(self, cond, var):
        for x in self.strip(cond)['inner']:
            if self.isvar(x, var): return cxx.ty(self.strip(x)).replace('const ', '')
    def step(self, inc, var):
        i = self.strip(inc)
        if i.get('kind') == 'UnaryOperator' and i['opcode'] in ('++', '--') and self.isvar(i['inner'][0], var):
            return 1 if i['opcode'] == '++' else -1
        if i.get('kind') == 'CompoundAssignOperator' and i['opcode'] in ('+=', '-=') and self.isvar(i['inner'][0], var):
            x = self.strip(i['inner'][1])
            if x.get('kind') == 'IntegerLiteral' and int(x['value']) == 1: return 1 if i['opcode'] == '+=' else -1
        return None

    def isvar(self, n, var):
        n = self.strip(n)
        return n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['id'] == var

    # ------------------------------------------------------------ unrolling
    def loop(self, st, n, cond, incs, body):
        try:
            r = self.unroll(st, n, cond, incs, body)
            if r is not None: return r
            return self.summarise(st, n, cond, incs, body)
        except Infeasible: return []

    def unroll(self, st, n, cond, incs, body):
        """loops whose condition is a constant on every iteration"""
        s = st.copy(); cur = [s]; done = []
        for it in range(self.MAXUNROLL + 1):
            nxt = []
            for s in cur:
                outs = self.explore(s, lambda x: self.cond(x, cond))
                if len(outs) != 1 or outs[0][1][0] != 'val': return None
                s2, b = outs[0][0], outs[0][1][1]
                if b is not TRUE and b is not FALSE:
                    if it and smt.prove(s2.facts, b, 1000): b = TRUE
                    elif it and smt.prove(s2.facts, bnot(b), 1000): b = FALSE
                    else: return None
                if b is FALSE: done.append((s2, ('next',))); continue
                if it == self.MAXUNROLL: return None
                for s3, o in self.exec_stmt(s2, body):
                    if o[0] in ('next', 'continue'):
                        for i in incs:
                            for s4, o4 in self.exec_stmt(s3, i): nxt.append(s4)
                    elif o[0] == 'break': done.append((s3, ('next',)))
                    else: done.append((s3, o))
            cur = nxt
            if not cur: return done
        return None

    # ------------------------------------------------------------ summaries
    def summarise(self, st, n, cond, incs, body):
        where = self.p.where(n)
        var = self.loopvar(cond)
        if var is None or not incs or var not in st.env: raise Unsupported('loop form at ' + where)
        if len(incs) > 1:            # other increments belong to the body
            mine = [i for i in incs if self.step(i, var) is not None]
            if len(mine) != 1 or self.has_continue(body): raise Unsupported('loop form at ' + where)
            body = {'kind': 'CompoundStmt', 'inner': [body] + [i for i in incs if i is not mine[0]]}; incs = mine
        stp = self.step(incs[0], var)
        if stp is None: raise Unsupported('loop step at ' + where)
        va = st.env[var].addr
        c = self.strip(cond); op = c['opcode']
        left = self.isvar(c['inner'][0], var)
        bound_node = c['inner'][1 if left else 0]
        if not left: op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op]
        lo0 = st.cells[va]
        outs = self.explore(st, lambda s: toP(self.rv(s, bound_node)))
        if len(outs) != 1 or outs[0][1][0] != 'val': raise Unsupported('loop bound')
        st, bnd = outs[0][0], outs[0][1][1]
        if stp == 1:
            if op == '<' or op == '!=': lo, hi = lo0, bnd
            elif op == '<=': lo, hi = lo0, bnd + 1
            else: raise Unsupported('loop direction at ' + where)
        else:
            if op == '>=': lo, hi = bnd, lo0 + 1
            elif op == '>' or op == '!=': lo, hi = bnd + 1, lo0 + 1
            else: raise Unsupported('loop direction at ' + where)
        w = self.varty(cond, var)
        if w in NARROW: self.oblige(st, 'index', ile(hi if stp == 1 else lo0, NARROW[w]), n, 'the counter reaches the end of its loop')
        if op == '!=' and not smt.prove(st.facts, ile(lo, hi)): raise Unsupported('loop bound with != at ' + where)
        end = hi if stp == 1 else lo - 1
        res = []
        if self.possible(st, ile(hi, lo)):
            s = st.copy(); s.assume(ile(hi, lo)); s.cells[va] = lo0
            if smt.feasible(s.facts): res.append((s, ('next',)))
        if self.possible(st, ilt(lo, hi)):
            s = st.copy(); s.assume(ilt(lo, hi))
            try: res += self.summary(s, n, va, lo, hi, stp, end, body, bound_node, bnd, 0)
            except BreakInLoop: res += self.peel_last(s, n, va, lo, hi, stp, end, body, bound_node, bnd)
        return res

    def peel_last(self, st, n, va, lo, hi, stp, end, body, bound_node, bnd):
        """a loop that is left early in its last iteration only"""
        last = hi - 1 if stp == 1 else lo
        l2, h2 = (lo, last) if stp == 1 else (lo + 1, hi)
        pre = []
        if self.possible(st, ile(h2, l2)):
            s = st.copy(); s.assume(ile(h2, l2)); pre.append((s, ('next',)))
        if self.possible(st, ilt(l2, h2)):
            s = st.copy(); s.assume(ilt(l2, h2))
            pre += self.summary(s, n, va, l2, h2, stp, last, body, bound_node, bnd, 0)
        res = []
        for s, o in pre:
            if o[0] != 'next': res.append((s, o)); continue
            s.cells[va] = last
            for t, o2 in self.exec_stmt(s, body):
                if o2[0] in ('next', 'continue'):
                    if t.cells.get(va) != last: raise Unsupported('loop variable changed in the body')
                    t.cells[va] = end; res.append((t, ('next',)))
                elif o2[0] == 'break': res.append((t, ('next',)))
                else: res.append((t, o2))
        return res

    def at_iter(self, st, va, I, lo, hi):
        s = st.copy()
        s.cells[va] = P.sym(I)
        s.assume(ile(lo, P.sym(I))); s.assume(ilt(P.sym(I), hi))
        s.binders = st.binders + ((I, lo, hi),)
        return s

    def run_body(self, s, body):
        """merged fall-through states and exits"""
        nexts, exits = [], []
        for t, o in self.exec_stmt(s, body):
            if o[0] in ('next', 'continue'): nexts.append(t)
            elif o[0] == 'break': raise BreakInLoop('break in a data loop')
            else: exits.append((t, o))
        return self.merge_list(s, nexts), exits

    def new_entries(self, pre, post):
        """entries of post.log that are not in pre.log"""
        return [e for e in post.log if not any(same_w(e, x) for x in pre.log)]

    def summary(self, st, n, va, lo, hi, stp, end, body, bound_node, bnd, depth):
        """elements with case distinctions get a name; where that does not work out they are kept as expressions"""
        old = getattr(self, 'naming', True); self.naming = old; self.was_named = False
        try: return self.summary_(st, n, va, lo, hi, stp, end, body, bound_node, bnd, depth)
        except BreakInLoop: raise
        except Unsupported as e:
            if not self.was_named or not old: raise
            self.naming = False
            try: return self.summary_(st, n, va, lo, hi, stp, end, body, bound_node, bnd, depth)
            except Unsupported: raise e
        finally: self.naming = old

    def summary_(self, st, n, va, lo, hi, stp, end, body, bound_node, bnd, depth):
        where = self.p.where(n)
        I = fresh('i'); PI = P.sym(I)
        count = PI - lo if stp == 1 else hi - 1 - PI          # iterations done before this one
        prog = {}        # integers that grow by the same amount in every iteration
        for attempt in (0, 1):
            s1 = self.at_iter(st, va, I, lo, hi)
            for a, d in prog.items(): s1.cells[a] = toP(st.cells[a]) + d * count
            self.quiet += 1
            try: nexts, exits = self.run_body(s1.copy(), body)
            finally: self.quiet -= 1
            if attempt or not nexts: break
            for a, x in st.cells.items():
                if a == va or not isinstance(x, P): continue
                ds = {toP(t.cells[a]) - x for t in nexts if isinstance(t.cells.get(a), P)}
                if ds == {P.c(0)}: continue
                if len(ds) != 1: raise Unsupported('loop-carried integer at ' + where)
                d = next(iter(ds))
                if I in d.syms(): raise Unsupported('loop-carried integer at ' + where)
                prog[a] = d
            if not prog: break
        if not nexts: raise Unsupported('loop never continues')
        if len(nexts) > 1:
            # loop-invariant conditions: fork before the loop
            if depth > 6: raise Unsupported('too many loop cases')
            n0 = len(s1.facts); groups = []
            for t in nexts + [t for t, _ in exits]:
                inv = tuple(f for f in t.facts[n0:] if I not in f.isyms() and not self.iteration_bases(f, I))
                inv = tuple(f for f in inv if f.k != 'okflag')
                if inv not in groups: groups.append(inv)
            if len(groups) == 1: raise Unsupported('loop body has several outcomes at ' + where)
            # atomic invariant conditions, decided one by one before the loop
            conds = []
            for g in groups:
                for f in g:
                    f0 = bnot(f) if f.k == 'not' else f
                    if f0 not in conds: conds.append(f0)
            res = []; cur = [st]
            for cnd in conds:
                nx = []
                for s in cur:
                    for b in (cnd, bnot(cnd)):
                        if self.possible(s, b):
                            x = s.copy(); x.assume(b); nx.append(x)
                cur = nx
            if len(cur) < 2: raise Unsupported('loop cases at ' + where)
            for s in cur: res += self.summary(s, n, va, lo, hi, stp, end, body, bound_node, bnd, depth + 1)
            return res
        p1 = nexts[0]
        # ---- what was written
        regs = []        # (buf, region, value) depending on I
        temps = []       # (buf, region, value) independent of I
        for k, b in p1.bufs.items():
            if k not in st.bufs: continue
            b0 = st.bufs[k]
            if b is b0 or same_buf(b, b0): continue
            if b.base != b0.base:
                regs.append((k, None, None)); continue
            for e in self.new_entries(b0, b):
                if e.b is not None: raise Unsupported('nested loop writes at ' + where)
                if I in e.reg.syms(): regs.append((k, e.reg, e.val))
                else: temps.append((k, e.reg, e.val))
        # ---- state at the start of iteration I
        s2 = self.at_iter(st, va, I, lo, hi)
        for a, d in prog.items(): s2.cells[a] = toP(st.cells[a]) + d * count
        flo, fhi = (lo, PI) if stp == 1 else (PI + 1, hi)
        fams = {}; fbases = set(); based = []
        named = {}
        for k, r, v in regs:
            if r is None: continue
            if r.rows.const() == 1 and r.cols.const() == 1 and r.idx is None and v.valid == 'full' and self.unit_off(r, I) is not None and self.naming and self.complicated(v):
                self.was_named = True
                base = Base('F:%s@%s#%d' % (self.aname(k), where, st.num()), hi - lo, 1, tuple(P.sym(b) for b, _, _ in st.binders))
                named[(k, r.key())] = (base, lo)
                F = Mat.letter(mk_b(base, PI - lo, 1, 1, 1))
            else:
                F = None
                if len(v.t) == 1:
                    (w, cc), = v.t.items()
                    if len(w) == 1 and cc.const() == 1 and w[0][0] == 'b' and w[0][1].name.startswith('chol@') and w[0][1].idx and w[0][1].idx[-1] is PI and not w[0][6]:
                        F = v
                if F is None:
                    base = Base('F:%s@%s#%d' % (self.aname(k), where, st.num()), r.rows, r.cols, tuple(P.sym(b) for b, _, _ in st.binders) + (PI,))
                    F = Mat.letter(mk_b(base)).with_(valid=v.valid)
            fbases |= {b.name for b in F.bases()}
            l, h = flo, fhi
            # base case just outside the range
            edge = lo - 1 if stp == 1 else hi
            re_ = r.subst({I: edge})
            pre = next((e for e in reversed(st.bufs[k].log) if e.b is None and same(st.facts, e.reg, re_)), None) if not named.get((k, r.key())) else None
            if pre is None and st.bufs[k].vec is False and not named.get((k, r.key())):
                pass
            bv = None
            if pre is not None and (r.idx is not None or True):
                bv = pre.val
                if stp == 1: l = edge
                else: h = edge + 1
            fams.setdefault(k, []).append([r, F, bv, edge, l, h])
        for k, r, v in temps:
            s2.bufs[k] = s2.bufs[k].write(s2.facts, r, Mat.letter(mk_b(Base('loopstale:%s#%d' % (self.aname(k), st.num()), r.rows, r.cols, (PI,), {'stale'}))))
        for k, fl in fams.items():
            b = s2.bufs[k]
            for r, F, bv, edge, l, h in fl:
                bn = fresh('b')
                b = b.write(s2.facts, r.subst({I: P.sym(bn)}), F.subst_i({I: P.sym(bn)}), (bn, l, h))
            s2.bufs[k] = b
        # scalars
        accs = {}
        for a, x in st.cells.items():
            y = p1.cells.get(a)
            if a == va or y is None or x is y or x == y: continue
            if isinstance(x, S) and isinstance(y, S):
                nm = fresh('acc'); accs[a] = (x, nm); s2.cells[a] = S.sym(nm)
            elif isinstance(x, VO): pass
            elif a in prog: pass
            elif isinstance(x, (P, B)): raise Unsupported('loop-carried integer or bool at ' + where)
            elif isinstance(x, (LD, Opaque)): accs[a] = (x, None)
            else: raise Unsupported('loop changes %r at %s' % (x, where))
        if p1.events != st.events: raise Unsupported('output inside a data loop')
        oldn = getattr(self, 'named', {})
        self.named = dict(oldn); self.named.update({k: (b, PI - l) for k, (b, l) in named.items()})
        start = s2.copy()
        try: nexts, exits = self.run_body(s2, body)
        finally: self.named = oldn
        if len(nexts) != 1: raise Unsupported('loop body has several outcomes at ' + where)
        p2 = nexts[0]
        # the bound must not change
        try: b2 = [v for _, v in self.explore(p2.copy(), lambda s: toP(self.rv(s, bound_node)))]
        except Unsupported: b2 = None
        if not b2 or b2[0][0] != 'val' or not smt.prove(p2.facts, ieq(b2[0][1], bnd)): raise Unsupported('loop bound changes at ' + where)
        if p2.cells.get(va) is not PI: raise Unsupported('loop variable changed in the body at ' + where)
        # ---- summary state
        out = st.copy(); out.n = max(out.n, p2.n)
        out.cells[va] = end
        for a, d in prog.items():
            if not isinstance(p2.cells.get(a), P) or p2.cells[a] - start.cells[a] != d: raise Unsupported('loop-carried integer at ' + where)
            out.cells[a] = toP(st.cells[a]) + d * (hi - lo)
        last = hi - 1 if stp == 1 else lo
        sub_last = {I: last}
        newdefs = [d for d in p2.defs if d not in st.defs]
        allv = []
        for k, b in p2.bufs.items():
            if k not in st.bufs: continue
            b0 = start.bufs[k]
            if b is b0: continue
            for e in self.new_entries(b0, b): allv.append((k, e))
        # closed or recurrent?
        rec = set()
        for k, e in allv:
            rec |= {b.name for b in e.val.bases()} & fbases
        for k, x in p2.ghost.items():
            if isinstance(k, tuple) and k[0] == 'namedval': rec |= set()
        dv = set()
        for d in newdefs: dv |= {b.name for b in bases_in(d.data)} & fbases
        for f in p2.facts[len(start.facts):]: dv |= {b.name for b in f.bases()} & fbases
        rec |= dv
        seen = {}
        for k, e in allv:
            if e.b is not None: raise Unsupported('nested loop writes at ' + where)
            if I in e.reg.syms():
                fam = next((x for x in fams.get(k, []) if x[0].key() == e.reg.key()), None)
                if fam is None: raise Unsupported('writes differ between passes at ' + where)
                seen.setdefault(k, []).append((e, fam))
            elif not any(k == t[0] and t[1].key() == e.reg.key() for t in temps): raise Unsupported('writes differ between passes at ' + where)
        for k, l in fams.items():
            # base changed (resize in a constructor loop) is handled below
            for f in l:
                if not any(f is g for _, g in seen.get(k, [])): raise Unsupported('writes differ between passes at ' + where)
        b2n = fresh('b')
        for k, l in seen.items():
            # iterations must not overwrite each other
            for e, _ in l:
                for g, _ in l:
                    f3 = tuple(start.facts) + (ile(lo, P.sym(b2n)), ilt(P.sym(b2n), hi), bnot(ieq(P.sym(b2n), PI)))
                    if not disjoint(f3, e.reg, g.reg.subst({I: P.sym(b2n)})): raise Unsupported('iterations overwrite each other at ' + where)
        for k, r, v in temps:
            e = next((e for kk, e in allv if kk == k and e.reg.key() == r.key()), None)
            if e is None: raise Unsupported('writes differ between passes at ' + where)
            out.bufs[k] = out.bufs[k].write(out.facts, r, e.val.subst_i(sub_last))
        for k, l in seen.items():
            b = out.bufs[k]
            for e, (r, F, bv, edge, lo_, hi_) in l:
                key = (k, r.key())
                if key in named:
                    base, off = named[key]
                    val = p2.ghost.get(('namedval', base))
                    if val is None: raise Unsupported('named element')
                    if val.bases() & {base}: raise Unsupported('recurrence on elements')
                    q = self.unit_off(r, I)
                    b = b.write(out.facts, Region(None, q.subst({I: lo}), 0, hi - lo, 1, hi - lo), Mat.letter(mk_b(base)))
                    newdefs.append(Def('elem', (base, val.subst_i({I: PJ + lo})), st.binders))
                    continue
                single = F is not None and e.val.t == F.t
                fn = next(iter(F.bases())).name
                if single:
                    vv, l2, h2 = F, lo, hi
                    if bv is not None and fn in rec:
                        (l2, h2) = (edge, hi) if stp == 1 else (lo, edge + 1)
                        newdefs.append(Def('base', (F.subst_i({I: edge}), bv), st.binders))
                elif fn in rec:
                    vv = F; l2, h2 = lo, hi
                    newdefs.append(Def('rec', (F, e.val), st.binders + ((I, lo, hi),)))
                    if bv is not None:
                        (l2, h2) = (edge, hi) if stp == 1 else (lo, edge + 1)
                        newdefs.append(Def('base', (F.subst_i({I: edge}), bv), st.binders))
                else: vv, l2, h2 = e.val, lo, hi
                if (r.rows.const() == 1 and r.cols.const() == 1 and r.idx is None and self.unit_off(r, I) is not None and vv.valid == 'full'):
                    q = self.unit_off(r, I)
                    v1 = vec_from_body(m_elem(vv, P.c(0)).subst_i({I: PJ + l2}), h2 - l2)
                    b = b.write(out.facts, Region(None, q.subst({I: l2}), 0, h2 - l2, 1, h2 - l2), v1)
                    continue
                b = b.write(out.facts, r, vv, (I, l2, h2))
            out.bufs[k] = b
        # per-iteration letters of bases that are not recurrent stay as defs
        for a, (x, nm) in accs.items():
            y = p2.cells[a]
            if nm is None: out.cells[a] = subst_any(y, sub_last); continue
            at = S.sym(nm)
            d = y - at
            if nm not in syms_of(d):
                out.cells[a] = x + s_sum(I, d, lo, hi)
            elif nm not in syms_of(y): out.cells[a] = y.subst_i(sub_last)
            else: raise Unsupported('loop accumulator at ' + where)
        for a, x in p2.cells.items():
            if isinstance(x, VO) and a in st.cells and st.cells[a] != x:
                if x.dimstate is not None:
                    if x.dimstate == ('partial', PI) and smt.prove(out.facts, band(ieq(lo, 0), ieq(hi, x.size))):
                        out.cells[a] = VO(x.size, x.rows, x.cols, x.vec)
                    else: raise Unsupported('partially resized vector at ' + where)
                else: out.cells[a] = x
                out.bufs[a] = Buf(self.aname(a), self.stale_family(a, x.rows, x.cols), (), True)
            elif a in st.cells and a not in accs and a not in prog and a != va and st.cells[a] != x and not isinstance(x, VO):
                raise Unsupported('cell differs between passes at ' + where)
        # facts
        for f in p2.facts[len(start.facts):]:
            if I in f.isyms() : out.qfacts = out.qfacts + ((I, lo, hi, f),)
            elif any(b.name.startswith('loopstale') for b in f.bases()): pass
            else: out.assume(f)
        out.qfacts = out.qfacts + tuple(q for q in p2.qfacts if q not in st.qfacts)
        dd = [d for d in newdefs if d not in out.defs]
        out.defs = out.defs + tuple(dd)
        for k, v in p2.ghost.items():
            if k not in out.ghost and isinstance(k, tuple) and k[0] == 'occ': out.ghost[k] = v
        res = [(out, ('next',))]
        for t, o in exits:
            t.binders = st.binders
            res.append((t, o))
        return res

    def iteration_bases(self, f, I):
        return any(I in x.syms() for b in f.bases() for x in b.idx) or any(b.name.startswith('loopstale') for b in f.bases())

    def unit_off(self, r, I):
        o = r.off(); c = o.coeff_of(I)
        return o if c is not None and c[0].const() == 1 else None

    def complicated(self, v):
        x = m_elem(v, P.c(0))
        return has_kind(x, ('ite', 'sqrt', 'inv', 'max', 'min', 'abs'))

    def store(self, st, lv, v, node=None):
        if isinstance(lv, ER) and getattr(self, 'named', None):
            k = self.named.get((lv.buf, lv.reg.key()))
            if k is not None:
                base, off = k
                st.ghost[('namedval', base)] = toS(self.num(v))
                v = S.atom(Atom('elem', (mk_b(base),), off))
        return Eig.store(self, st, lv, v, node)

    def merge(self, s0, a, b, va=None, vb=None):
        ka = {k for k in set(a.ghost) | set(b.ghost) if isinstance(k, tuple) and k[0] == 'namedval' and a.ghost.get(k) is not b.ghost.get(k)}
        if ka:
            if any(k not in a.ghost or k not in b.ghost for k in ka): return None
            ea = self.extra(s0, a)
            if ea is None: return None
            a2, b2 = a.copy(), b.copy()
            for k in ka: a2.ghost[k] = b2.ghost[k] = None
            m = Eig.merge(self, s0, a2, b2, va, vb)
            if m is not None:
                for k in ka: m.ghost[k] = s_ite(band(*ea), a.ghost[k], b.ghost[k])
            return m
        return Eig.merge(self, s0, a, b, va, vb)

def has_kind(x, kinds):
    if isinstance(x, S): return any(a.kind in kinds or any(has_kind(g, kinds) for g in a.args) for a in x.atoms())
    return False

def syms_of(s):
    r = set()
    def go(x):
        if isinstance(x, S):
            for a in x.atoms():
                if a.kind == 'sym': r.add(a.args[0])
                for g in a.args: go(g)
        elif isinstance(x, B):
            for g in x.a: go(g)
        elif isinstance(x, Mat):
            for w, c in x.t.items(): go(c)
    go(s)
    return r

def s_sum(I, body, lo, hi):
    """sum of body(I) for I in [lo,hi), canonical bound name"""
    if I not in body.isyms(): return body * S.ofP(hi - lo)
    r = S({})
    for m, c in body.t.items():
        t = S({m: c})
        d = dot_of(I, m, c, lo, hi) if I in t.isyms() else None
        if d is not None: r = r + d
        elif I in t.isyms(): r = r + S.atom(Atom('sum', '$s', S({m: Fraction(1)}).subst_i({I: P.sym('$s')}), lo, hi)) * S.c(c)
        else: r = r + t * S.ofP(hi - lo)
    return r

def dot_of(I, m, c, lo, hi):
    """sum of products of corresponding elements of two vectors"""
    dep = [x for x in m if I in x[0].isyms]
    if len(dep) == 2 and dep[0][1] == dep[1][1] == 1: pair = [dep[0][0], dep[1][0]]
    elif len(dep) == 1 and dep[0][1] == 2: pair = [dep[0][0]] * 2
    else: return None
    vs = []
    for a in pair:
        if a.kind != 'elem': return None
        v = vec_from_body(S.atom(a).subst_i({I: PJ + lo}), hi - lo)
        if any(l[0] != 'b' for w in v.t for l in w): return None
        vs.append(v)
    rest = S({tuple(x for x in m if I not in x[0].isyms): Fraction(1)}) * S.c(c)
    if pair[0] is pair[1]:
        n = m_norm2(vs[0]); return n * n * rest
    return m_dot(vs[0], vs[1]) * rest

def bases_in(x):
    if isinstance(x, (S, B, Mat)): return set(x.bases())
    if isinstance(x, Base): return {x}
    if isinstance(x, (tuple, list)):
        r = set()
        for y in x: r |= bases_in(y)
        return r
    if isinstance(x, Buf):
        r = set()
        for e in x.log: r |= bases_in(e.val)
        return r
    if isinstance(x, Def): return bases_in(x.data)
    return set()
