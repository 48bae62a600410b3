"""Semantics of the Eigen / std containers operations used by the code (trusted library contracts)."""
from .exec import *
from .exec import Exec, Infeasible, Fam

class Eig(Exec):
    # ------------------------------------------------------------ views and dimensions
    def view(self, st, v):
        """View of a matrix object / element of a vector of matrices"""
        if isinstance(v, View): return v
        if isinstance(v, LV):
            x = st.cells.get(v.addr)
            if isinstance(x, View): return x
            if isinstance(x, MO): v = ML(v.addr)
        if isinstance(v, ML):
            o = st.cells[v.addr]
            return View(v.addr, Region(v.idx, 0, 0, o.rows, o.cols, o.rows), False, v)
        raise Unsupported('not a matrix: %r' % (v,))

    def dims(self, st, v):
        if isinstance(v, (View, E)): return v.rows, v.cols
        if isinstance(v, ML): o = st.cells[v.addr]; return o.rows, o.cols
        if isinstance(v, LV):
            x = st.cells.get(v.addr)
            if isinstance(x, (View,)): return x.rows, x.cols
            if isinstance(x, MO): return x.rows, x.cols
        if isinstance(v, NA): return self.dims(st, v.v)
        if isinstance(v, TV): 
            r, c = self.dims(st, v.v); return (c, r) if v.T else (r, c)
        raise Unsupported('dimensions of %r' % (v,))

    def is_matrix(self, st, v):
        return isinstance(v, (View, ML, E, NA, TV)) or (isinstance(v, LV) and isinstance(st.cells.get(v.addr), (View, MO)))

    def resize(self, st, lv, d, node):
        d = [toP(x) for x in d]
        o = st.cells[lv.addr]
        vec = o.vec
        if len(d) == 1:
            if not vec: raise Unsupported('resize of a matrix with one argument')
            r, c = d[0], P.c(1)
        else: r, c = d
        if vec and len(d) == 2: self.oblige(st, 'size', ieq(c, 1), node, 'vector resized to one column')
        self.oblige(st, 'size', band(ile(0, r), ile(0, c)), node, 'resize to nonnegative sizes')
        if isinstance(o, MO):
            if o.fixed: raise Unsupported('resize of a fixed matrix')
            if o.rows is r and o.cols is c: return
            if smt.prove(st.facts, band(ieq(o.rows, r), ieq(o.cols, c)), 1500): return
            st.cells[lv.addr] = MO(r, c, vec)
            st.bufs[lv.addr] = Buf(self.aname(lv.addr), self.stale(lv.addr, r, c))
            return
        # element of a vector of matrices
        if o.dimstate is None and smt.prove(st.facts, band(ieq(o.rows, r), ieq(o.cols, c)), 1500): return
        st.cells[lv.addr] = VO(o.size, r, c, o.vec, ('partial', lv.idx))
        st.bufs[lv.addr] = Buf(self.aname(lv.addr), self.stale_family(lv.addr, r, c), (), True)

    # ------------------------------------------------------------ evaluation
    def ev(self, st, x, node, leaves, mode='cw'):
        """value (Mat) of an Eigen expression; leaves collects (buf, region, mode, isview)"""
        if isinstance(x, LV): x = st.cells[x.addr] if isinstance(st.cells[x.addr], View) else ML(x.addr)
        if isinstance(x, (View, ML)):
            v = self.view(st, x)
            if v.buf is None: return Mat.zero(v.rows, v.cols)
            leaves.append((v.buf, v.reg, mode))
            m = self.read_reg(st, v.buf, v.reg)
            return m.with_(rows=v.rows, cols=v.cols)
        if isinstance(x, NA): raise Unsupported('noalias on the right')
        if isinstance(x, TV):
            v = self.ev(st, x.v, node, leaves, 'any')
            m = self.tri(v, x.mode)
            return m.T() if x.T else m
        if not isinstance(x, E): raise Unsupported('not an Eigen expression: %r' % (x,))
        k, a = x.k, x.a
        if k == 'ident':
            if x.rows is x.cols or smt.prove(st.facts, ieq(x.rows, x.cols)): return Mat.ident(x.rows).with_(rows=x.rows, cols=x.cols)
            raise Unsupported('rectangular identity')
        if k == 'const': return m_const(x.rows, x.cols, a[0])
        if k in ('add', 'sub'):
            l = self.ev(st, a[0], node, leaves, mode); r = self.ev(st, a[1], node, leaves, mode)
            return l + r if k == 'add' else l - r
        if k == 'neg': return -self.ev(st, a[0], node, leaves, mode)
        if k == 'scale': return self.ev(st, a[1], node, leaves, mode).scale(a[0])
        if k == 'T': return self.ev(st, a[0], node, leaves, 'any' if mode == 'cw' else mode).T()
        if k == 'mul':
            l = self.ev(st, a[0], node, leaves, 'prod'); r = self.ev(st, a[1], node, leaves, 'prod')
            return (l * r)
        if k == 'lazy':
            l = self.ev(st, a[0], node, leaves, 'any'); r = self.ev(st, a[1], node, leaves, 'any')
            return l * r
        if k == 'dmul':      # diagonal times matrix: coefficientwise
            l = self.ev(st, a[0], node, leaves, 'any' if mode == 'cw' and x.cols.const() != 1 else mode)
            r = self.ev(st, a[1], node, leaves, mode)
            return m_diag(l) * r
        if k == 'muld':
            l = self.ev(st, a[0], node, leaves, mode); r = self.ev(st, a[1], node, leaves, 'any')
            return l * m_diag(r)
        if k == 'arr': return self.ev(st, a[0], node, leaves, mode)
        if k == 'getdiag':
            m = self.ev(st, a[0], node, leaves, 'any')
            return vec_from_body(m_elem(m, PJ, PJ), x.rows)
        if k == 'diag':
            return m_diag(self.ev(st, a[0], node, leaves, 'any'))
        if k in ('quot', 'cprod', 'cmin', 'cmax'):
            l = self.ev(st, a[0], node, leaves, mode); r = self.ev(st, a[1], node, leaves, mode)
            if x.cols.const() != 1: raise Unsupported('elementwise operation on matrices')
            p, q = m_elem(l, PJ), m_elem(r, PJ)
            b = {'quot': s_div, 'cprod': lambda u, v: u * v, 'cmin': s_min, 'cmax': s_max}[k](p, q)
            return vec_from_body(b, x.rows)
        if k in ('cmaxs', 'cmins'):
            l = self.ev(st, a[1], node, leaves, mode)
            if x.cols.const() != 1: raise Unsupported('elementwise operation on matrices')
            p = m_elem(l, PJ)
            return vec_from_body(s_max(p, a[0]) if k == 'cmaxs' else s_min(p, a[0]), x.rows)
        if k in ('cabs', 'csqrt', 'csq', 'cinv'):
            l = self.ev(st, a[0], node, leaves, mode)
            if x.cols.const() != 1: raise Unsupported('elementwise operation on matrices')
            p = m_elem(l, PJ)
            return vec_from_body({'cabs': s_abs, 'csqrt': s_sqrt, 'csq': lambda u: u * u, 'cinv': s_inv}[k](p), x.rows)
        if k == 'selfadj':
            v = self.ev(st, a[0], node, leaves, 'any')
            if v.T().t == v.t: return v.with_(valid='full')
            raise Unsupported('selfadjointView of an unsymmetric value')
        if k == 'solve':
            return self.ldlt_solve(st, a[0], a[1], x, node, leaves)
        raise Unsupported('expression ' + k)

    def tri(self, m, mode):
        """lower/upper triangular part, as a full value"""
        if len(m.t) == 0: return m.with_(valid='full')
        for w in m.t:
            if not w: continue
            if len(w) == 1:
                l = w[0]
                if l[0] == 'd': continue
                if mode == 'lower' and l_lower(l): continue
                if mode == 'upper' and l_lower(l_T(l)): continue
            if self.quiet: return Mat.letter(mk_b(Base(fresh('quiet'), m.rows, m.cols, (), {mode} if mode == 'lower' else ())))
            raise Unsupported('triangular part of a general value')
        return m.with_(valid='full')

    def same_dims(self, st, a, b, node, what):
        (r1, c1), (r2, c2) = a, b
        return self.oblige(st, 'size', band(ieq(r1, r2), ieq(c1, c2)), node, what)

    # ------------------------------------------------------------ writes
    def write_reg(self, st, buf, reg, m):
        st.bufs[buf] = st.bufs[buf].write(st.facts, reg, m.with_(rows=reg.rows, cols=reg.cols))

    def overlap(self, st, dst, leaf):
        """True if the leaf may overlap the destination"""
        if leaf[0] != dst.buf: return False
        return not disjoint(st.facts, dst.reg, leaf[1])

    def check_alias(self, st, dst, leaves, noal, node):
        for l in leaves:
            if not self.overlap(st, dst, l): continue
            if l[2] == 'cw' and same(st.facts, dst.reg, l[1]): continue
            if l[2] == 'prod' and not noal: continue     # evaluated into a temporary
            sure = same(st.facts, dst.reg, l[1]) or contained(st.facts, dst.reg, l[1]) is not None
            self._rec('alias', node, 'operands do not overlap the destination', 'no' if sure else 'unknown', '%s %r vs %r' % (l[0], l[1], dst.reg))
            raise Unsupported('overlapping operands at ' + self.p.where(node))
        self._rec('alias', node, 'operands do not overlap the destination', 'yes')

    def assign(self, st, dst, src, node, op='='):
        """dst op src for matrices"""
        noal = False
        if isinstance(dst, LV): dst = st.cells[dst.addr] if isinstance(st.cells[dst.addr], View) else ML(dst.addr)
        if isinstance(dst, NA): noal = True; dst = dst.v
        tri = None
        if isinstance(dst, TV):
            if dst.T: raise Unsupported('assignment to a transposed triangular view')
            tri = dst.mode; dst = dst.v
        if isinstance(dst, LV): dst = st.cells[dst.addr] if isinstance(st.cells[dst.addr], View) else ML(dst.addr)
        if isinstance(src, LD): raise Unsupported('assignment')
        sd = self.dims(st, src)
        leaves = []
        val = self.ev(st, src, node, leaves)
        resizable = isinstance(dst, ML) and not (isinstance(st.cells[dst.addr], MO) and st.cells[dst.addr].fixed)
        dd = self.dims(st, dst)
        isvecdst = dd[1].const() == 1
        # a 1xn source assigned to a plain vector is transposed by Eigen only for static vectors; not supported
        if op == '=' and resizable and tri is None:
            if isinstance(st.cells[dst.addr], MO) and st.cells[dst.addr].vec:
                self.oblige(st, 'size', ieq(sd[1], 1), node, 'vector assigned from one column')
            if not smt.prove(st.facts, band(ieq(dd[0], sd[0]), ieq(dd[1], sd[1])), 1500):
                # resizing assignment
                noov = not any(l[0] == dst.addr for l in leaves)
                if not noov: raise Unsupported('resizing assignment with aliasing')
                self.resize(st, dst, [sd[0]] if st.cells[dst.addr].vec else list(sd), node)
                dv = self.view(st, dst)
                self.write_reg(st, dv.buf, dv.reg, val); return dst
        else:
            self.same_dims(st, dd, sd, node, 'dimensions of the two sides of %s agree' % op)
        dv = self.view(st, dst)
        if dv.const: raise Unsupported('write through a const view')
        self.check_alias(st, dv, leaves, noal or (tri is not None and any(l[2] == 'prod' and l[0] == dv.buf for l in leaves)), node)
        if dv.buf is None: return dst
        old = None
        if op != '=':
            old = self.read_reg(st, dv.buf, dv.reg)
            val = val.with_(rows=dv.rows, cols=dv.cols)
            val = old + val if op == '+=' else old - val
        if tri == 'lower': val = val.with_(valid='lower')
        elif tri is not None: raise Unsupported('triangular assignment mode ' + tri)
        elif val.valid != 'full' and op != '=':
            pass
        self.write_reg(st, dv.buf, dv.reg, val)
        return dst

    # ------------------------------------------------------------ operators
    def scalar(self, v): return isinstance(v, (S, P, B))

    def o_assign(self, st, n, args):
        a = self.eval(st, args[0])
        if self.is_matrix(st, a):
            b = self.eval(st, args[1])
            if isinstance(a, LV) and isinstance(st.cells[a.addr], View) : a = st.cells[a.addr]
            if is_arr(a):
                a, b = a.a[0], self.aoperand(st, b, a)
                if not isinstance(a, (View, ML)): raise Unsupported('assignment to an expression')
            return self.assign(st, a, b, n)
        b = self.eval(st, args[1])
        if isinstance(a, Opaque) or (isinstance(a, LV) and isinstance(st.cells.get(a.addr), Opaque) and st.cells[a.addr].what == 'ignore'): return a
        if isinstance(a, LV):
            x = st.cells.get(a.addr)
            if isinstance(b, LV): 
                y = st.cells[b.addr]
                if isinstance(y, (VO, DV)): st.bufs[a.addr] = st.bufs[b.addr]
                if isinstance(x, (Ptr, NullP)) and 'unique_ptr' in cxx.ty(args[1]):
                    st.cells[b.addr] = NullP()
                b = y
            if isinstance(b, (LD, Ptr, NullP, DV, VO, Opaque)) or self.scalar(b): st.cells[a.addr] = b; return a
        raise Unsupported('assignment %r = %r at %s' % (a, b, self.p.where(n)))

    def _opassign(self, st, n, args, op):
        a = self.eval(st, args[0]); b = self.eval(st, args[1])
        if is_arr(a): a, b = a.a[0], self.aoperand(st, b, a)
        if isinstance(a, E) and a.k == 'getdiag':
            a, b = self.freeze(st, a.a[0]), E('diag', (self.freeze(st, b),), *self.dims(st, a.a[0]))
        if isinstance(a, E): raise Unsupported('assignment to an expression')
        return self.assign(st, a, b, n, op)
    def o_addassign(self, st, n, args): return self._opassign(st, n, args, '+=')
    def o_subassign(self, st, n, args): return self._opassign(st, n, args, '-=')
    def o_mulassign(self, st, n, args):
        a = self.eval(st, args[0]); b = self.load(st, self.eval(st, args[1]))
        if is_arr(a):
            t = a.a[0]
            return self.assign(st, t, self.arr2(st, 'cprod', E('arr', (t,), *self.dims(st, t)), b, n), n)
        if self.scalar(b): return self.assign(st, a, E('scale', (toS(self.num(b)), a), *self.dims(st, a)), n)
        raise Unsupported('*= with a matrix')
    def o_divassign(self, st, n, args):
        a = self.eval(st, args[0]); b = self.load(st, self.eval(st, args[1]))
        if is_arr(a):
            t = a.a[0]
            return self.assign(st, t, self.arr2(st, 'quot', E('arr', (t,), *self.dims(st, t)), b, n), n)
        if self.scalar(b): return self.assign(st, a, E('scale', (s_inv(toS(self.num(b))), a), *self.dims(st, a)), n)
        raise Unsupported('/= with a matrix')

    def freeze(self, st, v):
        """operands are stored by reference (plain objects) or by value; both lazily"""
        if isinstance(v, LV) and isinstance(st.cells.get(v.addr), (View,)): return st.cells[v.addr]
        if isinstance(v, LV) and isinstance(st.cells.get(v.addr), MO): return ML(v.addr)
        return v

    def _addsub(self, st, n, args, k):
        a = self.freeze(st, self.eval(st, args[0]))
        if len(args) == 1: return E('neg', (a,), *self.dims(st, a))
        b = self.freeze(st, self.eval(st, args[1]))
        x, y = self.load(st, a) if isinstance(a, LV) else a, self.load(st, b) if isinstance(b, LV) else b
        if isinstance(x, Opaque) or isinstance(y, Opaque): return Opaque('time')
        if isinstance(x, Iter) and isinstance(y, P): return Iter(x.c, x.at + y if k == 'add' else x.at - y)
        if is_arr(a) or is_arr(b): return self.arr2(st, k, a, b, n)
        d = self.dims(st, a)
        self.same_dims(st, d, self.dims(st, b), n, 'operands of +/- have equal dimensions')
        return E(k, (a, b), *d)
    def aoperand(self, st, b, like):
        """operand of an array operation as a matrix-like expression of the shape of `like`"""
        b = self.freeze(st, b)
        if is_arr(b): return b.a[0]
        x = self.load(st, b) if isinstance(b, (LV, ER)) else b
        if self.scalar(x): return E('const', (toS(self.num(x)),), *self.dims(st, like))
        return b
    def arr2(self, st, k, a, b, n):
        """coefficientwise operation with an array operand"""
        like = a if is_arr(a) else b
        def sc(x):
            x = self.load(st, x) if isinstance(x, (LV, ER)) else x
            return toS(self.num(x)) if self.scalar(x) else None
        x, y = sc(a), sc(b)
        d = self.dims(st, like)
        if k == 'cprod' and (x is not None or y is not None):
            return E('arr', (E('scale', (x if x is not None else y, self.aoperand(st, b if x is not None else a, like)), *d),), *d)
        if k == 'quot' and y is not None: return E('arr', (E('scale', (s_inv(y), self.aoperand(st, a, like)), *d),), *d)
        p, q = self.aoperand(st, a, like), self.aoperand(st, b, like)
        self.same_dims(st, self.dims(st, p), self.dims(st, q), n, 'operands of an elementwise operation have equal dimensions')
        return E('arr', (E(k, (p, q), *d),), *d)
    def m_array(self, st, n, m, b, args):
        b = self.freeze(st, b); return E('arr', (b,), *self.dims(st, b))
    def m_matrix(self, st, n, m, b, args):
        b = self.freeze(st, b); return b.a[0] if is_arr(b) else b
    def m_diagonal(self, st, n, m, b, args):
        b = self.freeze(st, b); r, c = self.dims(st, b)
        if args or not smt.prove(st.facts, ieq(r, c)): raise Unsupported('diagonal')
        return E('getdiag', (b,), r, P.c(1))
    def _arr1(self, st, b, k):
        b = self.freeze(st, b); d = self.dims(st, b)
        return E('arr', (E(k, (b.a[0] if is_arr(b) else b,), *d),), *d)
    def m_abs(self, st, n, m, b, args): return self._arr1(st, b, 'cabs')
    def m_sqrt(self, st, n, m, b, args): return self._arr1(st, b, 'csqrt')
    def m_square(self, st, n, m, b, args): return self._arr1(st, b, 'csq')
    def m_inverse(self, st, n, m, b, args):
        if not is_arr(self.freeze(st, b)): raise Unsupported('matrix inverse')
        return self._arr1(st, b, 'cinv')
    def _arr_mm(self, st, n, b, args, k):
        b = self.freeze(st, b); y = self.freeze(st, self.eval(st, args[0]))
        if not is_arr(b): raise Unsupported(k)
        return self.arr2(st, k, b, y, n)
    def m_max(self, st, n, m, b, args): return self._arr_mm(st, n, b, args, 'cmax')
    def m_min(self, st, n, m, b, args): return self._arr_mm(st, n, b, args, 'cmin')
    def o_add(self, st, n, args): return self._addsub(st, n, args, 'add')
    def o_sub(self, st, n, args): return self._addsub(st, n, args, 'sub')

    def o_mul(self, st, n, args):
        if len(args) == 1: # dereference
            return self.deref(st, self.load(st, self.eval(st, args[0])), n)
        a = self.freeze(st, self.eval(st, args[0])); b = self.freeze(st, self.eval(st, args[1]))
        la, lb = self.load(st, a) if isinstance(a, (LV, ER)) else a, self.load(st, b) if isinstance(b, (LV, ER)) else b
        if is_arr(a) or is_arr(b): return self.arr2(st, 'cprod', a, b, n)
        if self.scalar(la): return E('scale', (toS(self.num(la)), b), *self.dims(st, b))
        if self.scalar(lb): return E('scale', (toS(self.num(lb)), a), *self.dims(st, a))
        da, db = self.dims(st, a), self.dims(st, b)
        self.oblige(st, 'size', ieq(da[1], db[0]), n, 'inner dimensions of the product agree')
        if isinstance(a, E) and a.k == 'diag': return E('dmul', (a.a[0], b), da[0], db[1])
        if isinstance(b, E) and b.k == 'diag': return E('muld', (a, b.a[0]), da[0], db[1])
        return E('mul', (a, b), da[0], db[1])
    def o_div(self, st, n, args):
        a = self.freeze(st, self.eval(st, args[0])); b = self.load(st, self.eval(st, args[1]))
        if is_arr(a) or is_arr(b): return self.arr2(st, 'quot', a, b, n)
        if self.scalar(b): return E('scale', (s_inv(toS(self.num(b))), a), *self.dims(st, a))
        raise Unsupported('matrix division')

    def elem(self, st, v, idx, n):
        """v(i) or v(i,j)"""
        v = self.freeze(st, v)
        if isinstance(v, E):
            if len(idx) == 1 and v.cols.const() == 1:
                self.oblige(st, 'index', band(ile(0, idx[0]), ilt(idx[0], v.rows)), n, 'element index in range')
                return m_elem(self.ev(st, v, n, []), idx[0])
            raise Unsupported('element of an expression')
        w = self.view(st, v)
        if w.buf is None: raise Unsupported('element of a null map')
        r = w.reg
        if len(idx) == 2:
            i, j = idx
            self.oblige(st, 'index', band(ile(0, i), ilt(i, r.rows), ile(0, j), ilt(j, r.cols)), n, 'element index in range')
            return ER(w.buf, Region(r.idx, r.r0 + i, r.c0 + j, 1, 1, r.ld))
        i = idx[0]
        self.oblige(st, 'index', band(ile(0, i), ilt(i, r.rows * r.cols)), n, 'element index in range')
        if r.cols.const() == 1: return ER(w.buf, Region(r.idx, r.r0 + i, r.c0, 1, 1, r.ld))
        if r.ld is not r.rows: raise Unsupported('linear index into a block')
        return ER(w.buf, Region(r.idx, r.off() + i, 0, 1, 1, 1))

    def o_paren(self, st, n, args):
        v = self.eval(st, args[0])
        if not self.is_matrix(st, v): raise Unsupported('call operator on %r' % (v,))
        idx = [toP(self.rv(st, x)) for x in args[1:]]
        return self.elem(st, v, idx, n)
    def o_index(self, st, n, args):
        v = self.eval(st, args[0]); i = toP(self.rv(st, args[1]))
        return self.index_elem(st, v, i, n)
    def index_elem(self, st, v, i, n):
        if isinstance(v, LV):
            x = st.cells.get(v.addr)
            if isinstance(x, VO):
                self.oblige(st, 'index', band(ile(0, i), ilt(i, x.size)), n, 'vector index in range')
                return ML(v.addr, i)
            if isinstance(x, DV):
                self.oblige(st, 'index', band(ile(0, i), ilt(i, x.size)), n, 'vector index in range')
                return ER(v.addr, Region(None, i, 0, 1, 1, x.size))
            if isinstance(x, PA):
                if i.const() is None: raise Unsupported('table of pointers')
                self.oblige(st, 'index', band(ile(0, i), ilt(i, x.size)), n, 'array index in range')
                return LV(v.addr + (int(i.const()),))
        return self.elem(st, v, [i], n)
    def o_arrow(self, st, n, args):
        return self.load(st, self.eval(st, args[0]))
    def o_eq(self, st, n, args):
        return self.binop(st, '==', self.rv(st, args[0]), self.rv(st, args[1]), n)
    def o_ne(self, st, n, args):
        return self.binop(st, '!=', self.rv(st, args[0]), self.rv(st, args[1]), n)
    def o_shl(self, st, n, args):
        b = self.eval(st, args[0])
        if isinstance(b, E): raise Unsupported('comma initialiser of an expression')
        try: w = self.view(st, b)
        except (Unsupported, AttributeError): raise Unsupported('stream output')
        return self.o_comma(st, n, [None, args[1]], Comma(b, w, P.c(0), P.c(0), P.c(0)))
    def o_comma(self, st, n, args, ci=None):
        """comma initialiser: blocks are laid out row by row of blocks"""
        if ci is None: ci = self.eval(st, args[0])
        if not isinstance(ci, Comma): raise Unsupported('comma operator')
        y = self.freeze(st, self.eval(st, args[1])) if self.is_matrix(st, self.eval(st.copy(), args[1])) else toS(self.num(self.rv(st, args[1])))
        w = ci.w
        r, c = (P.c(1), P.c(1)) if isinstance(y, S) else self.dims(st, y)
        i, j, h = ci.i, ci.j, ci.h
        if j.t and pv(st.facts, ieq(j, w.cols)): i, j, h = i + h, P.c(0), r
        elif not j.t: h = r
        self.oblige(st, 'size', band(ieq(r, h), ile(i + r, w.rows), ile(j + c, w.cols)), n, 'comma initialiser block fits')
        dst = self.block(st, View(w.buf, w.reg), i, j, r, c, n) if not isinstance(y, S) else None
        if isinstance(y, S): self.store(st, self.elem(st, ci.b, [i, j] if w.cols.const() != 1 else [i], n), y)
        else: self.assign(st, dst, y, n)
        return Comma(ci.b, w, i, j + c, h)
    def m_finished(self, st, n, m, b, args):
        if not isinstance(b, Comma): raise Unsupported('finished')
        return b.b

    # ------------------------------------------------------------ methods
    def iargs(self, st, args): return [toP(self.rv(st, x)) for x in args]
    def m_rows(self, st, n, m, b, args): return self.dims(st, b)[0]
    def m_cols(self, st, n, m, b, args): return self.dims(st, b)[1]
    def m_size(self, st, n, m, b, args):
        if isinstance(b, LV):
            x = st.cells.get(b.addr)
            if isinstance(x, (VO, DV)): return x.size
        r, c = self.dims(st, b); return r * c
    def m_empty(self, st, n, m, b, args): return ieq(self.m_size(st, n, m, b, args), 0)
    def m_data(self, st, n, m, b, args):
        if isinstance(b, LV) and isinstance(st.cells.get(b.addr), DV):
            return DPtr(b.addr, P.c(0), self.nullness(st, st.cells[b.addr].size))
        v = self.view(st, b)
        if v.buf is None: return NullP()
        if v.reg.idx is not None: raise Unsupported('data of a vector element')
        return DPtr(v.buf, v.reg.off(), FALSE)
    def nullness(self, st, size):
        return FALSE
    def vo_fill(self, st, b, k, arg):
        """k copies of one matrix"""
        o = st.cells[b.addr]; v = self.eval(st, arg); r, c = self.dims(st, v)
        m = self.ev(st, v, arg, [])
        st.cells[b.addr] = VO(k, r, P.c(1) if o.vec else c, o.vec)
        st.bufs[b.addr] = Buf(self.aname(b.addr), self.stale_family(b.addr, r, c), (), True)
        if not any('stale' in x.attr for x in m.bases()):
            bn = fresh('b')
            st.bufs[b.addr] = st.bufs[b.addr].write(st.facts + (ilt(0, k),), Region(P.sym(bn), 0, 0, r, c, r), m, (bn, P.c(0), k))
        return None
    def m_assign(self, st, n, m, b, args):
        if isinstance(b, LV) and isinstance(st.cells.get(b.addr), VO) and len(args) == 2:
            k = toP(self.rv(st, args[0]))
            self.oblige(st, 'size', ile(0, k), n, 'vector resized to a nonnegative length')
            return self.vo_fill(st, b, k, args[1])
        raise Unsupported('method assign at ' + self.p.where(n))
    def m_resize(self, st, n, m, b, args):
        if isinstance(b, LV) and isinstance(st.cells.get(b.addr), VO):
            o = st.cells[b.addr]; k = toP(self.rv(st, args[0]))
            self.oblige(st, 'size', ile(0, k), n, 'vector resized to a nonnegative length')
            if o.size.const() == 0 and len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr': return self.vo_fill(st, b, k, args[1])
            if o.size.const() == 0:
                st.cells[b.addr] = VO(k, P.c(0), P.c(1 if o.vec else 0), o.vec, ('partial', None))
                return None
            raise Unsupported('resize of a nonempty vector')
        if isinstance(b, LV) and isinstance(st.cells.get(b.addr), DV):
            o = st.cells[b.addr]; k = toP(self.rv(st, args[0]))
            self.oblige(st, 'size', ile(0, k), n, 'vector resized to a nonnegative length')
            if o.size.const() == 0:
                st.cells[b.addr] = DV(k)
                # value-initialised elements
                st.bufs[b.addr] = Buf(self.aname(b.addr), Mat.letter(mk_b(Base('init:' + self.aname(b.addr), k, 1, (), self.dv_attr(b.addr)))))
                return None
            raise Unsupported('resize of a nonempty vector')
        self.resize(st, b, self.iargs(st, args), n); return None
    def dv_attr(self, a): return ()
    def fill_(self, st, n, b, s):
        if isinstance(b, LV) and isinstance(st.cells.get(b.addr), DV):
            d = st.cells[b.addr]
            k = d.size.const()
            if k is not None and k <= 64:
                bf = st.bufs[b.addr]
                for i in range(k): bf = bf.write(st.facts, Region(None, i, 0, 1, 1, k), vec_from_body(s, 1))
                st.bufs[b.addr] = bf
                return None
            raise Unsupported('fill')
        if isinstance(b, LV): b = self.freeze(st, b)
        r, c = self.dims(st, b)
        if c.const() != 1 and s.t:
            raise Unsupported('constant matrix')
        self.assign_keep(st, b, E('const', (s,), r, c), n)
        return b
    def assign_keep(self, st, b, e, n): self.assign(st, b, e, n)
    def m_fill(self, st, n, m, b, args): return self.fill_(st, n, b, toS(self.num(self.rv(st, args[0]))))
    m_setConstant = m_fill
    def m_setZero(self, st, n, m, b, args):
        if args: self.resize(st, b, self.iargs(st, args), n)
        return self.fill_(st, n, b, S.c(0))
    def m_setOnes(self, st, n, m, b, args): return self.fill_(st, n, b, S.c(1))
    def m_setIdentity(self, st, n, m, b, args):
        r, c = self.dims(st, b); self.assign(st, b, E('ident', (), r, c), n); return b
    def m_noalias(self, st, n, m, b, args): return NA(self.freeze(st, b))
    def m_eval(self, st, n, m, b, args):
        a = ('tmp', st.depth, st.num()); r, c = self.dims(st, b)
        vec = c.const() == 1
        val = self.ev(st, b, n, [])
        st.cells[a] = MO(r, c, vec); st.bufs[a] = Buf(self.aname(a), val.with_(rows=r, cols=c))
        return ML(a)
    def m_transpose(self, st, n, m, b, args):
        b = self.freeze(st, b)
        if isinstance(b, TV): return TV(b.v, b.mode, not b.T)
        r, c = self.dims(st, b); return E('T', (b,), c, r)
    m_adjoint = m_transpose
    def m_block(self, st, n, m, b, args):
        i, j, r, c = self.iargs(st, args)
        return self.block(st, b, i, j, r, c, n)
    def block(self, st, b, i, j, r, c, n):
        b = self.freeze(st, b)
        R, C = self.dims(st, b)
        self.oblige(st, 'index', band(ile(0, i), ile(0, j), ile(0, r), ile(0, c), ile(i + r, R), ile(j + c, C)), n, 'block inside the matrix')
        if isinstance(b, E):
            if b.k in ('const',): return E('const', b.a, r, c)
            raise Unsupported('block of an expression')
        v = self.view(st, b); q = v.reg
        return View(v.buf, Region(q.idx, q.r0 + i, q.c0 + j, r, c, q.ld), v.const)
    def m_col(self, st, n, m, b, args):
        j, = self.iargs(st, args); return self.block(st, b, P.c(0), j, self.dims(st, b)[0], P.c(1), n)
    def m_row(self, st, n, m, b, args):
        i, = self.iargs(st, args); return self.block(st, b, i, P.c(0), P.c(1), self.dims(st, b)[1], n)
    def m_segment(self, st, n, m, b, args):
        i, k = self.iargs(st, args); return self.block(st, b, i, P.c(0), k, P.c(1), n)
    def m_head(self, st, n, m, b, args):
        k, = self.iargs(st, args); return self.block(st, b, P.c(0), P.c(0), k, P.c(1), n)
    def m_tail(self, st, n, m, b, args):
        k, = self.iargs(st, args); return self.block(st, b, self.dims(st, b)[0] - k, P.c(0), k, P.c(1), n)
    def m_topRows(self, st, n, m, b, args):
        k, = self.iargs(st, args); return self.block(st, b, P.c(0), P.c(0), k, self.dims(st, b)[1], n)
    def m_bottomRows(self, st, n, m, b, args):
        k, = self.iargs(st, args); r, c = self.dims(st, b); return self.block(st, b, r - k, P.c(0), k, c, n)
    def m_middleRows(self, st, n, m, b, args):
        i, k = self.iargs(st, args); return self.block(st, b, i, P.c(0), k, self.dims(st, b)[1], n)
    def m_leftCols(self, st, n, m, b, args):
        k, = self.iargs(st, args); return self.block(st, b, P.c(0), P.c(0), self.dims(st, b)[0], k, n)
    def m_topLeftCorner(self, st, n, m, b, args):
        r, c = self.iargs(st, args); return self.block(st, b, P.c(0), P.c(0), r, c, n)
    def m_bottomLeftCorner(self, st, n, m, b, args):
        r, c = self.iargs(st, args); R, C = self.dims(st, b); return self.block(st, b, R - r, P.c(0), r, c, n)
    def m_bottomRightCorner(self, st, n, m, b, args):
        r, c = self.iargs(st, args); R, C = self.dims(st, b); return self.block(st, b, R - r, C - c, r, c, n)
    def m_topRightCorner(self, st, n, m, b, args):
        r, c = self.iargs(st, args); R, C = self.dims(st, b); return self.block(st, b, P.c(0), C - c, r, c, n)
    def m_asDiagonal(self, st, n, m, b, args):
        b = self.freeze(st, b); r, c = self.dims(st, b)
        return E('diag', (b,), r, r)
    def m_lazyProduct(self, st, n, m, b, args):
        b = self.freeze(st, b); y = self.freeze(st, self.eval(st, args[0]))
        da, db = self.dims(st, b), self.dims(st, y)
        self.oblige(st, 'size', ieq(da[1], db[0]), n, 'inner dimensions of the product agree')
        return E('lazy', (b, y), da[0], db[1])
    def _cw2(self, st, n, b, args, k, ks=None):
        b = self.freeze(st, b); y = self.freeze(st, self.eval(st, args[0]))
        z = self.load(st, y) if isinstance(y, (LV, ER)) else y
        d = self.dims(st, b)
        if self.scalar(z):
            if ks is None: raise Unsupported('elementwise scalar')
            return E(ks, (toS(self.num(z)), b), *d)
        self.same_dims(st, d, self.dims(st, y), n, 'operands of an elementwise operation have equal dimensions')
        return E(k, (b, y), *d)
    def m_cwiseQuotient(self, st, n, m, b, args): return self._cw2(st, n, b, args, 'quot')
    def m_cwiseProduct(self, st, n, m, b, args): return self._cw2(st, n, b, args, 'cprod')
    def m_cwiseMax(self, st, n, m, b, args): return self._cw2(st, n, b, args, 'cmax', 'cmaxs')
    def m_cwiseMin(self, st, n, m, b, args): return self._cw2(st, n, b, args, 'cmin', 'cmins')
    def m_cwiseAbs(self, st, n, m, b, args): b = self.freeze(st, b); return E('cabs', (b,), *self.dims(st, b))
    def m_cwiseSqrt(self, st, n, m, b, args): b = self.freeze(st, b); return E('csqrt', (b,), *self.dims(st, b))
    def m_cwiseAbs2(self, st, n, m, b, args): b = self.freeze(st, b); return E('csq', (b,), *self.dims(st, b))
    def m_cwiseInverse(self, st, n, m, b, args): b = self.freeze(st, b); return E('cinv', (b,), *self.dims(st, b))
    def val(self, st, b, n):
        m = self.ev(st, b, n, [])
        if m.valid != 'full': raise Unsupported('reduction over a half-set matrix')
        return m
    def m_norm(self, st, n, m, b, args): return m_norm2(self.val(st, b, n))
    def m_squaredNorm(self, st, n, m, b, args):
        x = m_norm2(self.val(st, b, n)); return x * x
    def m_stableNorm(self, st, n, m, b, args): return m_norm2(self.val(st, b, n))
    def m_dot(self, st, n, m, b, args):
        y = self.eval(st, args[0])
        self.same_dims(st, self.dims(st, b), self.dims(st, y), n, 'operands of dot have equal length')
        return m_dot(self.val(st, b, n), self.val(st, y, n))
    def m_sum(self, st, n, m, b, args):
        from .loops import s_sum
        x = self.val(st, b, n)
        if x.cols.const() != 1: raise Unsupported('sum of a matrix')
        I = fresh('i'); return s_sum(I, m_elem(x, P.sym(I)), P.c(0), x.rows)
    def m_lpNorm(self, st, n, m, b, args):
        mt = re.search(r'lpNorm\s*<(.*)$', self.p.src(m), re.S)
        t = mt.group(1).strip().rstrip('>').strip() if mt else ''
        if t.endswith('Infinity'): return m_normInf(self.val(st, b, n))
        if t == '2': return m_norm2(self.val(st, b, n))
        if t == '1': return S.atom(Atom('norm1', self.val(st, b, n)))
        raise Unsupported('lpNorm<%s>' % t)
    def _coeff(self, st, n, b, k):
        r, c = self.dims(st, b)
        self.oblige(st, 'size', ilt(0, r * c), n, '%s of a nonempty vector' % k)
        m = self.val(st, b, n)
        if k == 'maxc' and len(m.t) == 1:
            (w, co), = m.t.items()
            if co.const() == 1 and len(w) == 1 and w[0][0] == 'e' and len(w[0][1].t) == 1:
                (mo, q), = w[0][1].t.items()
                if q == 1 and len(mo) == 1 and mo[0][1] == 1 and mo[0][0].kind == 'abs': return m_normInf(vec_from_body(toS(mo[0][0].args[0]), m.rows))
        if k == 'minc': return -S.atom(Atom('maxc', -m))
        return S.atom(Atom('maxc', m))
    def m_maxCoeff(self, st, n, m, b, args): return self._coeff(st, n, b, 'maxc')
    def m_minCoeff(self, st, n, m, b, args): return self._coeff(st, n, b, 'minc')
    def m_coeff(self, st, n, m, b, args): return self.load(st, self.elem(st, b, self.iargs(st, args), n))
    def m_coeffRef(self, st, n, m, b, args): return self.elem(st, b, self.iargs(st, args), n)
    def m_swap(self, st, n, m, b, args):
        y = self.eval(st, args[0])
        if isinstance(b, ML) and isinstance(y, ML) and b.idx is None and y.idx is None:
            st.cells[b.addr], st.cells[y.addr] = st.cells[y.addr], st.cells[b.addr]
            st.bufs[b.addr], st.bufs[y.addr] = st.bufs[y.addr], st.bufs[b.addr]; return None
        raise Unsupported('swap')
    def m_allFinite(self, st, n, m, b, args): raise Unsupported('allFinite')
    def m_hasNaN(self, st, n, m, b, args): raise Unsupported('hasNaN')

    # triangular and symmetric views
    def m_triangularView(self, st, n, m, b, args):
        t = cxx.ty(n); k = int(re.search(r',\s*(\d+)[uU]?>\s*$', t).group(1)) if re.search(r',\s*(\d+)[uU]?>\s*$', t) else None
        if k not in (1, 2): raise Unsupported('triangular mode in ' + t)
        return TV(self.freeze(st, b), 'lower' if k == 1 else 'upper')
    def m_selfadjointView(self, st, n, m, b, args):
        t = cxx.ty(n); b = self.freeze(st, b); return E('selfadj', (b,), *self.dims(st, b))
    def tri_inv(self, st, b, n):
        v = self.tri(self.ev(st, b.v, n, []), b.mode)
        if b.T: v = v.T()
        return m_inv(v)
    def m_solveInPlace(self, st, n, m, b, args):
        if isinstance(b, LV) and isinstance(st.cells.get(b.addr), LD):
            y = self.freeze(st, self.eval(st, args[0])); ld = st.cells[b.addr]
            if ld.n is None: raise Unsupported('solve without factorization')
            w = self.view(st, y)
            self.oblige(st, 'size', ieq(ld.n, w.rows), n, 'solve has conforming dimensions')
            self.write_reg(st, w.buf, w.reg, self.ldlt_solve(st, ld, y, E('solve', (ld, y), w.rows, w.cols), n, []))
            return None
        if not isinstance(b, TV): raise Unsupported('solveInPlace')
        mt = re.search(r'solveInPlace\s*<(.*)$', self.p.src(m), re.S); right = False
        if mt:
            right = 'OnTheRight' in mt.group(1)
            if not right and 'OnTheLeft' not in mt.group(1): raise Unsupported('solveInPlace<...>')
        y = self.freeze(st, self.eval(st, args[0]))
        if isinstance(y, E): raise Unsupported('solveInPlace on an expression')
        d, e = self.dims(st, b), self.dims(st, y)
        self.oblige(st, 'size', band(ieq(d[0], d[1]), ieq(d[0], e[1] if right else e[0])), n, 'triangular solve has conforming dimensions')
        inv = self.tri_inv(st, b, n)
        dv = self.view(st, y); sv = self.view(st, b.v)
        if sv.buf == dv.buf and not disjoint(st.facts, sv.reg, dv.reg):
            self._rec('alias', n, 'triangular solve does not overwrite its matrix', 'no'); raise Unsupported('aliased solve')
        x = self.read_reg(st, dv.buf, dv.reg)
        self.write_reg(st, dv.buf, dv.reg, x * inv if right else inv * x)
        return None
    def m_solve(self, st, n, m, b, args):
        y = self.freeze(st, self.eval(st, args[0]))
        if isinstance(b, TV):
            d, e = self.dims(st, b), self.dims(st, y)
            self.oblige(st, 'size', band(ieq(d[0], d[1]), ieq(d[0], e[0])), n, 'triangular solve has conforming dimensions')
            raise Unsupported('triangular solve expression')
        if isinstance(b, LV):
            ld = st.cells[b.addr]
            if isinstance(ld, LD):
                r, c = self.dims(st, y)
                if ld.n is None:
                    self._rec('size', n, 'factorization computed before solve', 'unknown'); raise Unsupported('solve without factorization')
                self.oblige(st, 'size', ieq(ld.n, r), n, 'solve has conforming dimensions')
                return E('solve', (ld, y), r, c)
        raise Unsupported('solve')

    # ------------------------------------------------------------ factorizations
    def llt(self, st, v, n):
        w = self.view(st, v)
        self.oblige(st, 'size', ieq(w.rows, w.cols), n, 'factorized matrix is square')
        k = self.read_reg(st, w.buf, w.reg)
        if k.valid == 'upper': raise Unsupported('upper')
        if k.T().t != k.t and not self.quiet: raise Unsupported('Cholesky of an unsymmetric value')
        idx = tuple(P.sym(b) for b, _, _ in st.binders)
        site = 'chol@%s#%d' % (self.p.where(n), st.ghost.get(('occ', self.p.where(n)), 0))
        st.ghost[('occ', self.p.where(n))] = st.ghost.get(('occ', self.p.where(n)), 0) + 1
        base = Base(site, w.rows, w.rows, idx, {'lower'})
        ok = B('okflag', site, idx)
        st.defs = st.defs + (Def('chol', (base, k.with_(valid='full'), ok), st.binders),)
        self.write_reg(st, w.buf, w.reg, Mat.letter(mk_b(base)).with_(valid='lower'))
        return LD('llt', None, None, site, ok, w.rows)

    def ldlt_compute(self, st, v, n):
        w = self.view(st, v)
        self.oblige(st, 'size', ieq(w.rows, w.cols), n, 'factorized matrix is square')
        site = 'ldlt@%s#%d' % (self.p.where(n), st.ghost.get(('occ', self.p.where(n)), 0))
        st.ghost[('occ', self.p.where(n))] = st.ghost.get(('occ', self.p.where(n)), 0) + 1
        return LD('ldlt', st.bufs[w.buf], w.reg, site, B('okflag', site, ()), w.rows)

    def m_compute(self, st, n, m, b, args):
        v = self.freeze(st, self.eval(st, args[0]))
        if isinstance(b, LV) and isinstance(st.cells.get(b.addr), LD):
            if 'LDLT' in cxx.ty(m['inner'][0]): st.cells[b.addr] = self.ldlt_compute(st, v, n)
            else: raise Unsupported('LLT::compute')
            return b
        raise Unsupported('compute')
    def m_info(self, st, n, m, b, args):
        x = st.cells[b.addr]
        if x.ok is None: raise Unsupported('info before compute')
        return InfoV(x.ok)
    def ldlt_solve(self, st, ld, y, x, node, leaves):
        sub = []
        v = self.view(st, y) if not isinstance(y, E) else None
        leaves.append((v.buf, v.reg, 'prod') if v is not None else (None, None, 'prod')) if v is not None else None
        rhs = st.bufs[v.buf] if v is not None else Buf('rhs', self.ev(st, y, node, []))
        reg = v.reg if v is not None else Region(None, 0, 0, x.rows, x.cols, x.rows)
        base = Base('sol@%s#%d' % (self.p.where(node), st.num()), x.rows, x.cols)
        st.defs = st.defs + (Def('ldlt', (base, ld.kbuf, ld.kreg, rhs, reg, ld.ok), st.binders),)
        return Mat.letter(mk_b(base))

    # ------------------------------------------------------------ std containers
    def m_get(self, st, n, m, b, args):
        return st.cells[b.addr] if isinstance(b, LV) else b
    def m_reset(self, st, n, m, b, args):
        st.cells[b.addr] = self.rv(st, args[0]) if args else NullP(); return None
    def m_at(self, st, n, m, b, args):
        x = st.cells[b.addr]; i = toP(self.rv(st, args[0]))
        self.oblige(st, 'index', band(ile(0, i), ilt(i, x.size)), n, 'at() index in range')
        return ER(b.addr, Region(None, i, 0, 1, 1, x.size)) if isinstance(x, DV) else ML(b.addr, i)
    def m_begin(self, st, n, m, b, args): return Iter(b.addr, P.c(0))
    def m_end(self, st, n, m, b, args): return Iter(b.addr, st.cells[b.addr].size)
    m_cbegin = m_begin; m_cend = m_end
    def m_front(self, st, n, m, b, args): return ER(b.addr, Region(None, 0, 0, 1, 1, st.cells[b.addr].size))
    def m_back(self, st, n, m, b, args): return ER(b.addr, Region(None, st.cells[b.addr].size - 1, 0, 1, 1, st.cells[b.addr].size))
    def m_count(self, st, n, m, b, args): return S.sym('stale:time')
    def iter_deref(self, st, v, n):
        return ER(v.c, Region(None, v.at, 0, 1, 1, st.cells[v.c].size))

def is_arr(v): return isinstance(v, E) and v.k == 'arr'
