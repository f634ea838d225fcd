"""C25: losses of the learnable wavelets (filters of one arbitrary even length)."""
from specs.convn import *  # noqa: F401,F403

NAMES = ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi')


def tapf(name, i, L):
    return e_guard(e_atom(name, [i]), band(ge0(i), lt(i, L)))


def sign(i, L, e):
    """(-1)^(L-1-i) e: the coefficients of H(-z), up to a common sign"""
    p = ir.mod(sub(sub(L, ONE), i), K(2))
    return e_add(e_guard(e, eq(p, ZERO)), e_scale(e_guard(e, eq(p, ONE)), -1))


def poly(L, j, alias):
    """Coefficient j of H0(z) F0(z) + H1(z) F1(z), with H(-z) when alias."""
    out = []
    for h, f in (('dec_lo', 'rec_lo'), ('dec_hi', 'rec_hi')):
        out.append(e_sum(L, lambda k, h=h, f=f: e_mul((lambda e: sign(k, L, e) if alias else e)(e_atom(h, [k])), tapf(f, sub(j, k), L))))
    return e_add(*out)


def total(n, entry):
    def el(_):
        return e_sum(n, lambda i: (lambda e: e_mul(e, e))(entry(i)))
    return el


def obj(W, cls, dtype, device):
    C = core.C
    L = scale(V('h'), 2)
    C.assume(le(ONE, V('h')))
    for n in NAMES:
        eqprove.FILTERS.add(n)
    fs = [dense(n, [L], dtype, device) for n in NAMES]
    o = verify.call(cls, getattr(W.load('wavelets_learnable'), cls), *fs)
    return L, o


def dense(name, sizes, dtype, device):
    return SymTensor([(s,) for s in sizes], lambda fl: e_atom(name, fl if fl else [ZERO]), dtype, device and Device(device), Storage(name))


def scalar(what, r, e, dtype, device):
    expect_type(f'{what} is a tensor', r, SymTensor)
    if any(r.groups):
        malformed(f'{what} is a single number', f'shape {tuple(r.shape)}')
        return
    verify.oblige_eq(what, r.reshape([]) if r.groups else r, SymTensor([], e, dtype, device and Device(device)))


def last(r):
    """The vector along the only dimension of more than one entry."""
    return r.reshape(-1)


def triple(o, meth, what, L, p_entry, t_entry, dtype, device):
    r = verify.call(meth, getattr(o, meth))
    expect_type(f'{meth} returns three values', r, tuple)
    if len(r) != 3:
        malformed(f'{meth} returns three values', repr(len(r)))
        return None
    n = sub(scale(L, 2), ONE)
    for v in r:
        expect_type(f'{meth} returns tensors', v, SymTensor)
    dev_ = device and Device(device)
    verify.oblige_eq(f'{meth}: the product polynomial', last(r[1]), SymTensor([(n,)], lambda fl: p_entry(fl[0] if n != ONE else ZERO), dtype, dev_))
    verify.oblige_eq(f'{meth}: {what}', last(r[2]), SymTensor([(n,)], lambda fl: t_entry(fl[0] if n != ONE else ZERO), dtype, dev_))
    a, b = last(r[1]), last(r[2])

    def diff(i):
        return e_add(a.at([i]), e_scale(b.at([i]), -1))
    scalar(f'{meth}: the loss is the squared distance', r[0], total(n, diff), dtype, device)
    return r[0]


def target(L):
    return lambda j: e_guard(e_const(2), eq(j, sub(L, ONE)))


def product_spec(W, cls, dtype=F64, device='cpu'):
    def body():
        L, o = obj(W, cls, dtype, device)
        a = triple(o, 'alias_cancellation_loss', 'zero', L, lambda j: poly(L, j, True), lambda j: [], dtype, device)
        p = triple(o, 'perfect_reconstruction_loss', 'twice the centred unit pulse', L, lambda j: poly(L, j, False), target(L), dtype, device)
        s = verify.call('product_filter_loss', o.product_filter_loss)
        both = lambda _: e_add(a.E([]), p.E([]))  # noqa: E731
        if a is not None and p is not None:
            scalar('product_filter_loss is the sum of both', s, both, dtype, device)
        tot = verify.call('wavelet_loss', o.wavelet_loss)
        if cls == 'ProductFilter':
            scalar('wavelet_loss is the sum of both', tot, both, dtype, device)
        else:
            scalar('wavelet_loss is the sum of all terms', tot, lambda _: e_add(both(0), reversal(L)(0)), dtype, device)
        verify.oblige_eq('the length is the filter length', o.__len__(), mk(L))
        frame_obligation('the filters')
    return f'{cls}[product polynomials,{dtype},{device}]', body, case


def reversal(L):
    def d(a, b):
        return lambda i: e_add(e_atom(a, [i]), e_scale(e_atom(b, [sub(sub(L, ONE), i)]), -1))

    def el(_):
        return e_add(total(L, d('dec_lo', 'rec_lo'))(0), total(L, d('dec_hi', 'rec_hi'))(0))
    return el


def other_spec(W, cls, dtype=F64, device='cpu'):
    def body():
        L, o = obj(W, cls, dtype, device)
        r = verify.call('pf_alias_cancellation_loss', o.pf_alias_cancellation_loss)
        expect_type('pf_alias_cancellation_loss returns three values', r, tuple)
        dev_ = device and Device(device)
        for q, (a, b, c, what) in enumerate((('rec_lo', 'dec_hi', -1, 'F0(z) = H1(-z)'), ('rec_hi', 'dec_lo', 1, 'F1(z) = -H0(-z)')), 1):
            expect_type('pf_alias_cancellation_loss returns tensors', r[q], SymTensor)
            verify.oblige_eq(f'pf_alias_cancellation_loss: distance from {what}', last(r[q]),
                             SymTensor([(L,)], lambda fl, a=a, b=b, c=c: (lambda i: e_add(e_atom(a, [i]), e_scale(sign(i, L, e_atom(b, [i])), c)))(fl[0] if fl else ZERO), dtype, dev_))
        x, y = last(r[1]), last(r[2])
        scalar('pf_alias_cancellation_loss is the squared distance', r[0],
               lambda _: e_add(total(L, lambda i: x.at([i]))(0), total(L, lambda i: y.at([i]))(0)), dtype, device)
        if cls == 'SoftOrthogonalWavelet':
            n = add(ir.div(L, K(2)), ONE)

            def shifted(k):
                c = e_sum(L, lambda i: e_mul(e_atom('dec_lo', [i]), tapf('dec_lo', add(i, scale(k, 2)), L)))
                return e_add(c, e_guard(e_const(-1), eq(k, ZERO)))
            scalar('rec_lo_orthogonality_loss is the squared distance from double-shift orthonormality',
                   verify.call('rec_lo_orthogonality_loss', o.rec_lo_orthogonality_loss), total(n, shifted), dtype, device)
            scalar('filt_bank_orthogonality_loss is the squared distance from time-reversed filters',
                   verify.call('filt_bank_orthogonality_loss', o.filt_bank_orthogonality_loss), reversal(L), dtype, device)
        frame_obligation('the filters')
    return f'{cls}[other losses,{dtype},{device}]', body, case


def case(m):
    L = 2 * m.get('h', 1)
    return dict(w=f'rand:{L}:1', seed=1, per=0) if 1 <= L <= 120 else None
