"""C15: orthogonalisation of the incomplete rows."""
from specs.mats import *  # noqa: F401,F403
from core import Unsupported

QNAME, UNIT = 'Q', 'U'


def mt(W):
    return W.load('matmul_transform')


def rows_setup(p, n):
    """p distinct row numbers rho(0), .., rho(p-1) of a matrix with n rows; inv is the inverse."""
    sparse.INVERSE['rho'] = 'inv'

    def ax(t):
        r = ir.mkuf('rho', (t,))
        return [bor(bnot(band(ge0(t), lt(t, p))), band(ge0(r), lt(r, n), eq(ir.atom(('uf', 'inv', (r,))), t)))]
    ir.UFAXIOMS['rho'] = ax


def rho(t):
    return ir.mkuf('rho', (t,))


def inv(i):
    return ir.mkuf('inv', (i,))


def requested(i, p):
    return band(ge0(inv(i)), lt(inv(i), p), eq(rho(inv(i)), i))


def rows_tensor(p, device):
    f = lambda fl: rho(fl[0] if fl else ZERO)  # noqa: E731
    return SymTensor([(p,)], lambda fl: T.e_intval(f(fl)), T.I64, Device(device), Storage('the row numbers'), ielem=f)


def begin_rows(coalesced, dtype, device):
    C = core.C
    n, m, p = V('n'), V('m'), V('p')
    C.assume(band(le(ONE, n), le(ONE, m), le(ONE, p), le(p, n), le(p, m)))
    rows_setup(p, n)
    a = stored_matrix('A', [n, m], dtype, device, coalesced)
    return n, m, p, a, rows_tensor(p, device)


def replaced(a, p, basis, upto=None):
    """The rows rho(0..upto-1) replaced by basis(t, column), the others as they were."""
    n, m = [prod(g) for g in a.groups]
    hi = p if upto is None else upto

    def el(ix):
        i, c = ix
        return e_add(e_guard(a.at([i, c]), bnot(band(requested(i, p), lt(inv(i), hi)))), e_guard(basis(inv(i), c), band(requested(i, p), lt(inv(i), hi))))
    return coo_tensor([(n,), (m,)], el, a._dtype, a._device)


def qr_spec(W, coalesced=True, dtype=F64, device='cpu'):
    f = sm(W)._orth_by_qr

    def body():
        C = core.C
        n, m, p, a, rows = begin_rows(coalesced, dtype, device)
        calls = []

        def qr(x):
            """reduced decomposition x = q r of a full-rank x with at least as many rows as columns"""
            if x.is_sparse or len(x.groups) != 2:
                raise RuntimeError('linalg.qr of a sparse tensor')
            e = SymTensor([(m,), (p,)], None, dtype, Device(device))
            e._elem = lambda fl: (lambda c, t: a.at([rho(t), c]))(*pick2(fl, m, p))
            calls.append(1)
            verify.oblige_eq('the requested rows, as columns, are decomposed', x, e)
            q = dense(QNAME, [m, p], dtype, device, owner=False)
            return q, dense('R', [p, p], dtype, device, owner=False)
        C.store['qr'] = qr
        st = coo_tensor([(n,), (m,)], lambda ix: [], dtype, Device(device))  # noqa: F841

        def unfold(ix):
            j, i, c = ix
            r = requested(i, p)
            return e_add(e_guard(a.at([i, c]), bnot(r)), e_guard(e_atom(QNAME, [c if m != ONE else ZERO, inv(i)]), band(r, lt(inv(i), j))))
        eqprove.UNFOLD['G'] = unfold
        C.ghosts['G'] = vc.Ghost('G', [], [lambda i: n, lambda i: m], dtype, a._device, sparse=True)
        r = verify.call('_orth_by_qr', f, a, rows)
        check_matrix('the orthogonalised matrix', r, replaced(a._snap(), p, lambda t, c: e_atom(QNAME, [c, t])))
        if len(calls) == 1:
            C.record('the requested rows are decomposed once', 'discharged', backend='type', time=0)
        else:
            malformed('the requested rows are decomposed once', repr(calls))
        frame_obligation('the matrix and the row numbers')
    return f'_orth_by_qr[coalesced={coalesced},{dtype},{device}]', body, c15_case('qr')


def pick2(fl, m, p):
    it = iter(fl)
    return [ZERO if v == ONE else next(it) for v in (m, p)]


def c15_case(meth):
    def f(mo):
        n, m, p = [mo.get(v, 1) for v in 'nmp']
        if not (1 <= p <= n <= 30 and p <= m <= 40):
            return None
        return dict(t='rows', n=n, m=max(0, m - n), k=p, meth=meth, w='haar', seed=1, s=False)
    return f


def gs_spec(W, coalesced=True, dtype=F64, device='cpu'):
    f = sm(W)._orth_by_gram_schmidt

    def body():
        C = core.C
        n, m, p, a, rows = begin_rows(coalesced, dtype, device)
        C.store['contracts'] = dict(vc.CONTRACTS)
        C.store['contracts']['sparse_math.sparse_replace_row'] = row_contract
        dot_n = 'D.n'

        def dot_axiom(t, s):
            x = ir.mkuf(dot_n, (t, s))
            return [ge0(x), le(x, ONE)]
        ir.UFAXIOMS[dot_n] = dot_axiom
        eqprove.UNFOLD['D.v'] = lambda ix: e_atom('D', list(ix[1:]))

        def entry(t, c):
            return a.at([rho(t), c])

        def dot_def(t, s):
            return T.e_sum(m, lambda c: e_mul(entry(t, c), e_atom(UNIT, [s, c])))

        def dot(t, s):
            """the inner product of row rho(t) with the unit row s; D.n tells whether it is stored (else it is zero)"""
            return e_guard(e_atom('D', [t, s]), le(ONE, ir.mkuf(dot_n, (t, s))))

        def proj(ix):
            t, s, c = ix
            if s == ZERO:
                return []
            if s.t.get((), 0) >= 1:
                s1 = sub(s, ONE)
                return e_add(e_atom('S', [t, s1, c]), e_mul(dot(t, s1), e_atom(UNIT, [s1, c])))
            return e_guard(e_atom('S+', [t, s, c]), le(ONE, s))

        def residual(t, c):
            return e_add(entry(t, c), T.e_scale(e_atom('S', [t, t, c]), -1))

        def unit(ix):
            s, c = ix
            return e_mul(residual(s, c), e_atom('N^-1', [s]))

        def unfold(ix):
            j, i, c = ix
            h = band(requested(i, p), lt(inv(i), j))
            return e_add(e_guard(a.at([i, c]), bnot(h)), e_guard(e_atom(UNIT, [inv(i), c]), h))
        eqprove.UNFOLD['S'] = proj
        eqprove.UNFOLD['G'] = unfold
        eqprove.UNFOLD['U'] = unit
        C.ghosts['G'] = vc.Ghost('G', [], [lambda i: n, lambda i: m], dtype, a._device, sparse=True)

        def outer():
            return [ZERO] + list(C.__dict__.get('loopvars', []))

        def scalar(e):
            vs = outer()
            eqprove.UNFOLD.pop('U')  # the rows done so far are not taken apart
            try:
                for t in vs[::-1]:
                    for s in vs[::-1]:
                        if eqprove.equal(e, dot_def(t, s), TRUE)[0] == 'unsat':
                            return DotPat(t, s), dot(t, s)
            finally:
                eqprove.UNFOLD['U'] = unit
            return None

        def norm(x):
            fs = [prod(g) for g in x.groups]
            for t in outer()[::-1]:
                e = SymTensor(list(x.groups), None, dtype, Device(device))
                e._elem = lambda fl, t=t: residual(t, fl[-1] if m != ONE and fl else ZERO)
                e.sparse = x.sparse
                if T.dims_equal(prod(fs), m) and vc.tensors_equal(x, e)[0]:
                    r = SymTensor([], lambda fl: e_atom('N', [t]), dtype, x._device)
                    r._recip = lambda: SymTensor([], lambda fl: e_atom('N^-1', [t]), dtype, x._device)
                    return r
            raise Unsupported('norm of another vector than the residual of a row')
        C.store['scalar'] = scalar
        C.store['norm'] = norm

        def sums(v0, v1):
            """the sum of the projections on the rows done so far, in the iteration of one row"""
            if not isinstance(v0, SymTensor) or v0._ielem is not None:
                return
            for t in C.__dict__.get('loopvars', [])[-1:]:
                yield from [x for x in [SumT(t, v0)] if x.holds(v0, ZERO, None) and x.holds(v1, ONE, None)]

        class SumT(vc.Tmpl):
            def __init__(self, t, like):
                self.t, self.groups, self.sp = t, list(like.groups), like.sparse

            def at(self, i, st):
                r = SymTensor(self.groups, None, dtype, Device(device), sparse=self.sp)
                r._elem = lambda fl: e_atom('S', [self.t, i, fl[-1] if m != ONE and fl else ZERO])
                return r

            def holds(self, v, i, st):
                return isinstance(v, SymTensor) and v.is_sparse == (self.sp is not None) and vc.tensors_equal(v, self.at(i, st))[0]

            def __repr__(self):
                return f'S({self.t}, i)'
        C.store['extra_templates'] = [sums]
        r = verify.call('_orth_by_gram_schmidt', f, a, rows)
        check_matrix('the orthogonalised matrix', r, replaced(a._snap(), p, lambda t, c: e_atom(UNIT, [t, c])))
        frame_obligation('the matrix and the row numbers')
    return f'_orth_by_gram_schmidt[coalesced={coalesced},{dtype},{device}]', body, c15_case('gramschmidt')


class DotPat(sparse.Pat):
    def __init__(self, t, s):
        super().__init__('D', (), ir.mkuf('D.n', (t, s)))
        self.ts = (t, s)

    def argp(self):
        return self.ts


def row_contract(f, a, k):
    C = core.C
    v = dict(zip(['matrix', 'row_index', 'row'], a), **k)
    x, i, b = v['matrix'], v['row_index'], v['row']
    if isinstance(i, SymTensor):
        i = i.item()
    i = top(i)
    n = [prod(g) for g in x.groups]
    if not x.is_sparse or not b.is_sparse or len(b.groups) != 2:
        raise Unsupported('sparse_replace_row outside its contract')
    C.oblige('precondition of sparse_replace_row: a row number of the matrix, one row with as many columns',
             band(ge0(i), lt(i, n[0]), eq(prod(b.groups[0]), ONE), eq(prod(b.groups[1]), n[1])))
    if x._dtype is not b._dtype or x._device != b._device:
        raise Unsupported('sparse_replace_row of different types')
    return row_post(x._snap(), i, b._snap())


# ------------------------------------------------------------------ which rows
def counted(name, n, L, full):
    """Precondition of the matrix: every row has at least one and at most L stored entries (full: all have L)."""
    old = ir.UFAXIOMS.get(name + '.cnt')

    def ax(r, *a):
        x = ir.atom(('uf', name + '.cnt', (r,) + a))
        return (old(r, *a) if old else []) + [bor(bnot(band(ge0(r), lt(r, n))), band(le(ONE, x), le(x, L), eq(x, L) if full else TRUE))]
    ir.UFAXIOMS[name + '.cnt'] = ax


def begin_stored(coalesced, dtype, device, full=False):
    C = core.C
    n, m, L = V('n'), V('m'), V('L')
    C.assume(band(le(ONE, n), le(ONE, m), le(ONE, L), le(L, m)))
    a = stored_matrix('A', [n, m], dtype, device, coalesced)
    x = a if coalesced else a.coalesce()
    counted(x.sparse.name, n, L, full)
    return n, m, L, a, x.sparse


def incomplete(p, r, L):
    return lt(ir.mkuf(p.name + '.cnt', (r,) + p.argp()), L)


def check_rows(what, r, n, L, p, device):
    """r lists, in increasing order and once each, exactly the rows with fewer than L stored entries."""
    C = core.C
    expect_type(f'{what} are a tensor', r, SymTensor)
    if len(r.groups) != 1 or r._ielem is None:
        malformed(what, 'not a list of row numbers')
        return
    v = V(vc.uvar('r'))
    dom = band(ge0(v), lt(v, n))
    here = sparse.among(r, v)
    want = incomplete(p, v, L)
    C.assume(dom)
    C.oblige(f'{what}: every row with fewer stored entries than a full row is listed', bor(bnot(want), here))
    C.oblige(f'{what}: no other row is listed', bor(bnot(here), want))
    if r._device != Device(device):
        malformed(f'{what} are on the device of the matrix', repr(r._device))


def select_spec(W, coalesced=True, dtype=F64, device='cpu'):
    f = mt(W)._get_to_orthogonalize

    def body():
        n, m, L, a, p = begin_stored(coalesced, dtype, device)
        r = verify.call('_get_to_orthogonalize', f, a, mk(L))
        check_rows('the rows to orthogonalise', r, n, L, p, device)
        frame_obligation('the matrix')
    return f'_get_to_orthogonalize[coalesced={coalesced},{dtype},{device}]', body, c15_case('qr')


def orth_spec(W, method='qr', default=False, full=False, coalesced=True, dtype=F64, device='cpu'):
    f = mt(W).orthogonalize

    def body():
        C = core.C
        n, m, L, a, p = begin_stored(coalesced, dtype, device, full)
        snap = a._snap()
        calls = []

        def contract(name):
            def g(fn, args, k):
                ks = ['matrix', 'rows_to_orthogonalize' if name == 'qr' else 'to_orthogonalize']
                v = dict(zip(ks, args), **k)
                x, rows = [v[q] for q in ks]
                verify.oblige_eq(f'the matrix is orthogonalised', x, snap)
                check_rows('the rows handed over', rows, n, L, p, device)
                C.oblige('precondition: at least one row', le(ONE, prod(rows.groups[0])))
                calls.append(name)
                r = dense('O', [n, m], dtype, device, owner=False)
                r.sparse = True
                return r
            return g
        cs = C.store['contracts'] = dict(vc.CONTRACTS)
        cs['sparse_math._orth_by_qr'] = contract('qr')
        cs['sparse_math._orth_by_gram_schmidt'] = contract('gramschmidt')
        r = verify.call('orthogonalize', f, a, mk(L), *(() if default else (method,)))
        if calls == [method]:
            e = dense('O', [n, m], dtype, device, owner=False)
            e.sparse = True
            check_matrix('the result', r, e)
        elif not calls:
            v = V(vc.uvar('r'))
            C.assume(band(ge0(v), lt(v, n)))
            for E in sparse.fseq.ENUMS.values():  # a set with a member has at least one
                if len(E.vars) == 1:
                    C.assume(bor(bnot(E.member([v])), le(ONE, E.n())))
            C.oblige('without incomplete rows nothing is to be done', bnot(incomplete(p, v, L)))
            check_matrix('the unchanged matrix', r, snap)
        else:
            malformed('the requested method is used once', repr(calls))
        frame_obligation('the matrix')
    return f'orthogonalize[{method}{",default" if default else ""}{",complete" if full else ""},coalesced={coalesced},{dtype},{device}]', body, c15_case(method)
