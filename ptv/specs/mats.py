"""C13, C14: sparse matrices (dense definitions)."""
from specs.convn import *  # noqa: F401,F403
import sparse
import eqprove

CM = ('full', 'valid', 'same', 'sameshift')


def sm(W):
    return W.load('sparse_math')


def out_size(mode, n, L):
    return {'full': sub(add(n, L), ONE), 'valid': add(sub(n, L), ONE)}.get(mode, n)


def out_start(mode, L):
    """Row of the full convolution that is the first output row."""
    if mode == 'full':
        return ZERO
    if mode == 'valid':
        return sub(L, ONE)
    return add(sub(ir.div(L, K(2)), ONE), ir.mod(L, K(2)))


def coo_tensor(shape, entry, dtype, device):
    """Expected matrix; shape: factors per dimension; entry(list of factor indices)."""
    keep = [f != ONE for g in shape for f in g]

    def el(flat):
        it = iter(flat)
        return entry([next(it) if k else ZERO for k in keep])
    r = SymTensor([tuple(g) for g in shape], el, dtype, device if isinstance(device, Device) else Device(device))
    r.sparse = True
    return r


def tap(name, idx, sizes):
    """Entry of a dense operand, zero outside its range."""
    return e_guard(e_atom(name, idx), band(*[band(ge0(i), lt(i, s)) for i, s in zip(idx, sizes)]))


def conv_dom(mode, pairs):
    C = core.C
    for n, L in pairs:
        C.assume(band(le(ONE, n), le(ONE, L)))
        if mode == 'valid':
            C.assume(le(L, n))


def dense(name, sizes, dtype, device=None, owner=True):
    keep = [s != ONE for s in sizes]

    def el(flat):
        it = iter(flat)
        return e_atom(name, [next(it) if k else ZERO for k in keep])
    return SymTensor([(s,) for s in sizes], el, dtype, device and Device(device), Storage(name if owner else None))


def check_matrix(what, r, e):
    expect_type(f'{what} is a tensor', r, SymTensor)
    ok = r.is_sparse
    if ok:
        core.C.record(f'{what} is stored sparsely', 'discharged', backend='type', time=0)
    else:
        malformed(f'{what} is stored sparsely', 'dense')
    verify.oblige_eq(f'{what} has the size, type, device and entries of its definition', r, e)


def conv1_post(entry, n, L, mode, dtype, device):
    st, rows = out_start(mode, L), out_size(mode, n, L)
    r = SymTensor([(rows,), (n,)], None, dtype, device)

    def el(flat):
        it = iter(flat)
        i = ZERO if rows == ONE else next(it)
        c = ZERO if n == ONE else next(it)
        p = sub(add(i, st), c)
        return e_guard(entry(p), band(ge0(p), lt(p, L)))
    r._elem = el
    r.sparse = True
    return r


def conv1_spec(W, mode, dtype=F64, device='cpu', defmode=False):
    f = sm(W).construct_conv_matrix

    def body():
        n, L = V('n'), V('L')
        conv_dom(mode, [(n, L)])
        x = dense('F', [L], dtype, device)
        r = verify.call('construct_conv_matrix', f, x, mk(n), **({} if defmode else {'mode': mode}))
        check_matrix('the convolution matrix', r, conv1_post(lambda p: e_atom('F', [p]), n, L, mode, dtype, Device(device)))
        frame_obligation('the filter')
    return f'construct_conv_matrix[{"default=" if defmode else ""}{mode},{dtype},{device}]', body, conv_case('1', mode, 0)


def conv_case(t, mode, stride):
    def f(m):
        if t == '1':
            n, L = m.get('n', 1), m.get('L', 1)
            if not (1 <= n <= 200 and 1 <= L <= 200):
                return None
        else:
            n, L = [m.get('n0', 1), m.get('n1', 1)], [m.get('L0', 1), m.get('L1', 1)]
            if 'R0' in m or 'R1' in m:
                R = [m.get('R0', 1), m.get('R1', 1)]
                if mode == 'full':
                    L = [r - k + 1 for r, k in zip(R, n)]
                else:
                    n = [r + k - 1 for r, k in zip(R, L)]
            if not all(1 <= v <= 40 for v in n + L):
                return None
        return dict(t=t, L=L, n=n, mode=mode, stride=m.get('s', 2) if stride == 'sym' else stride, seed=1)
    return f


def conv1_contract(f, a, k):
    C = core.C
    C.nargs = None
    flt = a[0] if a else k['filter']
    n = top(a[1] if len(a) > 1 else k['input_rows'])
    mode = k.get('mode', a[2] if len(a) > 2 else 'valid')
    if len(flt.groups) != 1 or mode not in CM:
        raise Unsupported('construct_conv_matrix outside its contract')
    L = prod(flt.groups[0])
    C.oblige('precondition of construct_conv_matrix: at least one row and tap, the filter fits in mode valid',
             band(le(ONE, n), le(ONE, L), le(L, n) if mode == 'valid' else TRUE))
    return conv1_post(lambda p: flt.at([p]), n, L, mode, flt.dtype, flt.device)


def strided1_post(entry, n, L, s, mode, dtype, device):
    off = ONE if mode == 'sameshift' else ZERO
    tot = sub(out_size(mode, n, L), off)
    rows = ir.div(add(tot, sub(s, ONE)), s)
    full = conv1_post(entry, n, L, mode, dtype, device)
    e = SymTensor([(rows,), (n,)], None, dtype, device)
    e._elem = lambda fl: full.at([add(off, mul(s, fl[0] if rows != ONE else ZERO)), fl[-1] if n != ONE else ZERO])
    e.sparse = True
    return e


def strided1_spec(W, mode, dtype=F64, device='cpu', stride='sym', modular=True):
    m = sm(W)
    f = m.construct_strided_conv_matrix

    def body():
        C = core.C
        n, L = V('n'), V('L')
        conv_dom(mode, [(n, L)])
        C.store['contracts'] = dict(vc.CONTRACTS)
        if modular:
            C.store['contracts']['sparse_math.construct_conv_matrix'] = conv1_contract
        s = V('s') if stride == 'sym' else K(stride or 2)
        C.assume(le(ONE, s))
        x = dense('F', [L], dtype, device)
        a = () if stride is None else (mk(s),)
        r = verify.call('construct_strided_conv_matrix', f, x, mk(n), *a, mode=mode)
        check_matrix('the strided matrix', r, strided1_post(lambda p: e_atom('F', [p]), n, L, s, mode, dtype, Device(device)))
        frame_obligation('the filter')
    return f'construct_strided_conv_matrix[{mode},stride={stride},{dtype},{device}]', body, conv_case('1', mode, stride or 2)


# ------------------------------------------------------------------ sparse helpers (C14)
def stored_matrix(name, sizes, dtype, device, coalesced, zero='maybe'):
    """A sparse operand owned by the caller: entries name(r, c), `nnz` stored ones after coalescing (all zero if none)."""
    C = core.C
    nz = V(f'nnz{name}')
    C.assume(ge0(nz))
    x = dense(name, sizes, dtype, device)
    el = x._elem
    x._elem = lambda fl: e_guard(el(fl), le(ONE, nz))
    if coalesced:
        sparse.declare(x, name, nz)
    else:
        x.sparse = sparse.Raw(nz)
    return x


def kron_post(a, b):
    dt = T.promote(a._dtype, b._dtype)
    groups = [ga + gb for ga, gb in zip(a.groups, b.groups)]
    na = [len(g) for g in a.groups]

    def el(flat):
        parts = T.split_flat(groups, flat)
        return e_mul(a.E([v for p, k in zip(parts, na) for v in p[:k]]), b.E([v for p, k in zip(parts, na) for v in p[k:]]))
    r = SymTensor(groups, el, dt, a._device)
    r.sparse = True
    return r


def kron_spec(W, ca=True, cb=True, da=F64, db=F64, device='cpu'):
    f = sm(W).sparse_kron

    def body():
        C = core.C
        sz = [V(v) for v in ('ra', 'ca', 'rb', 'cb')]
        for s in sz:
            C.assume(le(ONE, s))
        a = stored_matrix('A', sz[:2], da, device, ca)
        b = stored_matrix('B', sz[2:], db, device, cb)
        e = kron_post(a, b)
        e = SymTensor(e.groups, e._elem, e._dtype, e._device, sparse=True)
        r = verify.call('sparse_kron', f, a, b)
        check_matrix('the Kronecker product', r, e)
        frame_obligation('the operands')
    return f'sparse_kron[coalesced={ca}/{cb},{da}/{db},{device}]', body, lambda m: c14_case('kron', [m.get(v, 1) for v in ('ra', 'ca', 'rb', 'cb')], da, db, ca)


def dense_kron_spec(W, dtype=F64, device='cpu'):
    f = sm(W)._dense_kron

    def body():
        C = core.C
        sz = [V(v) for v in ('ra', 'ca', 'rb', 'cb')]
        for s in sz:
            C.assume(le(ONE, s))
        a = stored_matrix('A', sz[:2], dtype, device, False)
        b = stored_matrix('B', sz[2:], dtype, device, True)
        r = verify.call('_dense_kron', f, a, b)
        check_matrix('the Kronecker product', r, kron_post(a, b))
        frame_obligation('the operands')
    return f'_dense_kron[{dtype},{device}]', body, lambda m: c14_case('dkron', [m.get(v, 1) for v in ('ra', 'ca', 'rb', 'cb')], dtype, None, True)


def c14_case(t, s, da=F64, db=None, u=True):
    if not all(0 <= v <= 60 for v in s):
        return None
    c = dict(t=t, s=list(s) + [1] * (6 - len(s)), dens=.5, dt='f4' if da is F32 else 'f8', seed=1, u=not u)
    return dict(c, raw=True, dt2='f4' if db is F32 else 'f8') if t == 'kron' else c


def kron_contract(f, a, k):
    x = a[0] if a else k['sparse_tensor_a']
    y = a[1] if len(a) > 1 else k['sparse_tensor_b']
    if len(x.groups) != 2 or len(y.groups) != 2 or x._device != y._device:
        raise Unsupported('sparse_kron outside its contract')
    return kron_post(x._snap(), y._snap())


def diag_post(d, off, rows, cols):
    n = prod(d.groups[0])
    r = SymTensor([(rows,), (cols,)], None, d._dtype, d._device)

    def el(flat):
        it = iter(flat)
        i = ZERO if rows == ONE else next(it)
        c = ZERO if cols == ONE else next(it)
        e = e_guard(e_add(e_guard(d.at([i]), ge0(off)), e_guard(d.at([c]), lt(off, ZERO))), eq(sub(c, i), off))
        return e_guard(e, band(bor(lt(off, ZERO), lt(i, n)), bor(ge0(off), lt(c, n))))
    r._elem = el
    r.sparse = True
    return r


def diag_spec(W, dtype=F64, device='cpu'):
    f = sm(W).sparse_diag

    def body():
        C = core.C
        n, off, rows, cols = V('n'), V('off'), V('rows'), V('cols')
        C.assume(band(le(ONE, n), le(ONE, rows), le(ONE, cols)))
        d = dense('D', [n], dtype, device)
        r = verify.call('sparse_diag', f, d, mk(off), mk(rows), mk(cols))
        check_matrix('the diagonal matrix', r, diag_post(d._snap(), off, rows, cols))
        frame_obligation('the diagonal')
    return f'sparse_diag[{dtype},{device}]', body, lambda m: dict(t='diag', s=[m.get(v, 1) for v in ('n', 'off', 'rows', 'cols')] + [1, 1], dens=.5, dt='f8', seed=1, u=False, raw=True)


def diag_contract(f, a, k):
    C = core.C
    names = ['diagonal', 'col_offset', 'rows', 'cols']
    v = dict(zip(names, a), **k)
    d = v['diagonal']
    off, rows, cols = [top(v[x]) for x in names[1:]]
    C.oblige('precondition of sparse_diag: at least one value, row and column', band(le(ONE, prod(d.groups[0])), le(ONE, rows), le(ONE, cols)))
    return diag_post(d._snap(), off, rows, cols)


def cat_spec(W, coalesced=True, dtype=F64, device='cpu'):
    f = sm(W).cat_sparse_identity_matrix

    def body():
        C = core.C
        n, ln = V('n'), V('N')
        C.assume(band(le(ONE, n), le(n, ln)))
        a = stored_matrix('A', [n, n], dtype, device, coalesced)
        r = verify.call('cat_sparse_identity_matrix', f, a, mk(ln))
        check_matrix('the extended matrix', r, cat_post(a._snap(), ln))
        frame_obligation('the matrix')
    return f'cat_sparse_identity_matrix[coalesced={coalesced},{dtype},{device}]', body, lambda m: c14_case('cat', [m.get('n', 1), m.get('N', 1) - m.get('n', 1) + 1], dtype, None, coalesced)


def cat_post(a, ln):
    n = prod(a.groups[0])
    r = SymTensor([(ln,), (ln,)], None, a._dtype, a._device)

    def el(flat):
        it = iter(flat)
        i, c = (ZERO, ZERO) if ln == ONE else (next(it), next(it))
        return e_add(e_guard(a.at([i, c]), band(lt(i, n), lt(c, n))), e_guard(T.e_const(1), band(le(n, i), eq(i, c))))
    r._elem = el
    r.sparse = True
    return r


def cat_contract(f, a, k):
    v = dict(zip(['sparse_matrix', 'new_length'], a), **k)
    x, ln = v['sparse_matrix'], top(v['new_length'])
    n = [prod(g) for g in x.groups]
    core.C.oblige('precondition of cat_sparse_identity_matrix: a square matrix, at least one row, no shorter result', band(eq(n[0], n[1]), le(ONE, n[0]), le(n[0], ln)))
    if not x.is_sparse:
        raise Unsupported('cat_sparse_identity_matrix of a dense matrix')
    return cat_post(x._snap(), ln)


def row_spec(W, ca=True, cr=True, dtype=F64, device='cpu', kind='int'):
    f = sm(W).sparse_replace_row

    def body():
        C = core.C
        n, m, i = V('n'), V('m'), V('i')
        C.assume(band(le(ONE, n), le(ONE, m), ge0(i), lt(i, n)))
        a = stored_matrix('A', [n, m], dtype, device, ca)
        b = stored_matrix('R', [ONE, m], dtype, device, cr)
        ix = mk(i) if kind == 'int' else SymTensor([], lambda fl: T.e_intval(i), T.I64, Device(device), Storage('row number'), ielem=lambda fl: i)
        r = verify.call('sparse_replace_row', f, a, ix, b)
        check_matrix('the matrix with a row replaced', r, row_post(a._snap(), i, b._snap()))
        frame_obligation('the operands')
    return f'sparse_replace_row[coalesced={ca}/{cr},{dtype},{device},{kind}]', body, lambda mo: dict(c14_case('row', [mo.get('n', 1), mo.get('m', 1), mo.get('i', 0)], dtype, None, ca) or {}, raw=True)


def row_post(a, i, b):
    r = SymTensor(list(a.groups), None, a._dtype, a._device)
    n, m = [prod(g) for g in a.groups]

    def el(flat):
        it = iter(flat)
        x = ZERO if n == ONE else next(it)
        c = ZERO if m == ONE else next(it)
        return e_add(e_guard(a.at([x, c]), bor(lt(x, i), lt(i, x))), e_guard(b.at([ZERO, c]), eq(x, i)))
    r._elem = el
    r.sparse = True
    return r


def bmm_spec(W, sparse_=True, dtype=F64, device='cpu'):
    f = sm(W).batch_mm

    def body():
        C = core.C
        m, n, b, k = [V(v) for v in ('m', 'n', 'b', 'k')]
        C.assume(band(*[le(ONE, v) for v in (m, n, b, k)]))
        a = stored_matrix('A', [m, n], dtype, device, True) if sparse_ else dense('A', [m, n], dtype, device)
        x = dense('X', [b, n, k], dtype, device)
        r = verify.call('batch_mm', f, a, x)
        expect_type('the product is a tensor', r, SymTensor)
        ea, ex = a._snap(), x._snap()
        e = SymTensor([(b,), (m,), (k,)], None, dtype, Device(device))

        def el(flat):
            it = iter(flat)
            p, q, s = [ZERO if v == ONE else next(it) for v in (b, m, k)]
            return T.e_sum(n, lambda c: e_mul(ea.at([q, c]), ex.at([p, c, s])))
        e._elem = el
        verify.oblige_eq('the batched product has the size, type, device and entries of its definition', r, e)
        frame_obligation('the operands')
    return f'batch_mm[{"sparse" if sparse_ else "dense"},{dtype},{device}]', body, lambda mo: dict(c14_case('bmm', [mo.get(v, 1) for v in 'mnbk'], dtype, None, sparse_) or {}, raw=True)


def dim_spec(W, rank, dim, sparse_=True, dtype=F64, device='cpu'):
    f = sm(W)._batch_dim_mm

    def body():
        C = core.C
        m = V('m')
        sz = [V(f's{j}') for j in range(rank)]
        C.assume(band(le(ONE, m), *[le(ONE, v) for v in sz]))
        d = dim % rank
        a = stored_matrix('A', [m, sz[d]], dtype, device, True) if sparse_ else dense('A', [m, sz[d]], dtype, device)
        x = dense('X', sz, dtype, device)
        r = verify.call('_batch_dim_mm', f, a, x, dim)
        expect_type('the product is a tensor', r, SymTensor)
        verify.oblige_eq('the product along a dimension has the size, type, device and entries of its definition', r, dim_post(a._snap(), x._snap(), d))
        frame_obligation('the operands')

    def case(mo):
        s = [mo.get(f's{j}', 1) for j in range(rank)]
        s = [1] * (4 - rank) + s
        c = c14_case('dim', [mo.get('m', 1), 1] + s, dtype, None, True)
        return c and dict(c, dens=dim % rank + 4 - rank, raw=True)
    return f'_batch_dim_mm[rank={rank},dim={dim},{"sparse" if sparse_ else "dense"},{dtype},{device}]', body, case


def dim_post(a, x, d):
    sz = [prod(g) for g in x.groups]
    m, n = [prod(g) for g in a.groups]
    out = sz[:d] + [m] + sz[d + 1:]
    r = SymTensor([(v,) for v in out], None, x._dtype, x._device)

    def el(flat):
        it = iter(flat)
        p = [ZERO if v == ONE else next(it) for v in out]
        return T.e_sum(n, lambda c: e_mul(a.at([p[d], c]), x.at(p[:d] + [c] + p[d + 1:])))
    r._elem = el
    return r


# ------------------------------------------------------------------ 2-D convolution matrices
def conv2_post(entry, n, L, mode, dtype, device):
    """n = [rows, columns]; flattened column by column: index (column, row)."""
    rows = [out_size(mode, n[q], L[q]) for q in (0, 1)]
    st = [out_start(mode, L[q]) for q in (0, 1)]

    def el(ix):
        oc, orr, ic, ir_ = ix
        p = [sub(add(orr, st[0]), ir_), sub(add(oc, st[1]), ic)]
        return e_guard(entry(p), band(*[band(ge0(p[q]), lt(p[q], L[q])) for q in (0, 1)]))
    return coo_tensor([(rows[1], rows[0]), (n[1], n[0])], el, dtype, device)


def conv2_setup(mode, rows=False):
    """rows: the numbers of output rows and columns R are the parameters (an equivalent choice that keeps products of them short)."""
    C = core.C
    n, L = [V('n0'), V('n1')], [V('L0'), V('L1')]
    if rows and mode in ('full', 'valid'):
        R = [V('R0'), V('R1')]
        C.assume(band(*[le(ONE, r) for r in R]))
        if mode == 'full':
            L = [add(sub(r, k), ONE) for r, k in zip(R, n)]
        else:
            n = [sub(add(r, l), ONE) for r, l in zip(R, L)]
    conv_dom(mode, list(zip(n, L)))
    cs = C.store['contracts'] = dict(vc.CONTRACTS)
    cs['sparse_math.construct_conv_matrix'] = conv1_contract
    cs['sparse_math.sparse_kron'] = cs['sparse_math._dense_kron'] = kron_contract
    cs['sparse_math.sparse_diag'] = diag_contract
    return n, L


def conv2_spec(W, mode, dtype=F64, device='cpu', defmode=False, fully=None):
    f = sm(W).construct_conv2d_matrix

    def body():
        C = core.C
        n, L = conv2_setup(mode)
        x = dense('F', L, dtype, device)
        rows = [out_size(mode, n[q], L[q]) for q in (0, 1)]
        st = [out_start(mode, L[q]) for q in (0, 1)]
        # partial sums over the filter columns 0..i
        G = 'K'

        def unfold(ix):
            i, oc, orr, ic, ir_ = ix
            p = [sub(add(orr, st[0]), ir_), sub(add(oc, st[1]), ic)]
            return e_guard(e_atom('F', p), band(ge0(p[0]), lt(p[0], L[0]), ge0(p[1]), le(p[1], i)))
        eqprove.UNFOLD[G] = unfold
        C.ghosts[G] = vc.Ghost(G, [], [lambda i: rows[1], lambda i: rows[0], lambda i: n[1], lambda i: n[0]], dtype, x._device, sparse=True)
        r = verify.call('construct_conv2d_matrix', f, x, mk(n[0]), mk(n[1]), **({} if defmode else {'mode': mode}), **({} if fully is None else {'fully_sparse': fully}))
        check_matrix('the 2-D convolution matrix', r, conv2_post(lambda p: e_atom('F', p), n, L, mode, dtype, device))
        frame_obligation('the filter')
    return f'construct_conv2d_matrix[{"default=" if defmode else ""}{mode},{dtype},{device}{"" if fully is None else f",fully_sparse={fully}"}]', body, conv_case('2', mode, 0)


def conv2_contract(f, a, k):
    C = core.C
    v = dict(zip(['filter', 'input_rows', 'input_columns'], a), **k)
    flt, n = v['filter'], [top(v['input_rows']), top(v['input_columns'])]
    mode = v.get('mode', 'valid')
    if len(flt.groups) != 2 or mode not in CM:
        raise Unsupported('construct_conv2d_matrix outside its contract')
    L = [prod(g) for g in flt.groups]
    C.oblige('precondition of construct_conv2d_matrix: at least one row, column and tap, the filter fits in mode valid',
             band(*[band(le(ONE, p), le(ONE, q), le(q, p) if mode == 'valid' else TRUE) for p, q in zip(n, L)]))
    flt = flt._snap()
    return conv2_post(lambda p: flt.at(p), n, L, mode, flt._dtype, flt._device)


def strided2_spec(W, mode, dtype=F64, device='cpu', stride='sym'):
    m = sm(W)
    f = m.construct_strided_conv2d_matrix

    def body():
        C = core.C
        n, L = conv2_setup(mode or 'full', rows=True)
        C.store['contracts']['sparse_math.construct_conv2d_matrix'] = conv2_contract
        s = V('s') if stride == 'sym' else K(stride or 2)
        C.assume(le(ONE, s))
        x = dense('F', L, dtype, device)
        r = verify.call('construct_strided_conv2d_matrix', f, x, mk(n[0]), mk(n[1]), *(() if stride is None else (mk(s),)), **({} if mode is None else {'mode': mode}))
        md = mode or 'full'
        off = ONE if md == 'sameshift' else ZERO
        tot = [out_size(md, n[q], L[q]) for q in (0, 1)]
        cnt = [ir.div(add(sub(t, off), sub(s, ONE)), s) for t in tot]
        st = [out_start(md, L[q]) for q in (0, 1)]

        def el(ix):
            c, q, ic, iq = ix
            p = [sub(add(add(off, mul(s, q)), st[0]), iq), sub(add(add(off, mul(s, c)), st[1]), ic)]
            return e_guard(e_atom('F', p), band(*[band(ge0(p[j]), lt(p[j], L[j])) for j in (0, 1)]))
        check_matrix('the strided 2-D matrix', r, coo_tensor([(cnt[1], cnt[0]), (n[1], n[0])], el, dtype, device))
        frame_obligation('the filter')
    return f'construct_strided_conv2d_matrix[{mode},stride={stride},{dtype},{device}]', body, conv_case('2', mode or 'full', stride or 2)
