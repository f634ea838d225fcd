"""C11, C12: the stationary transform (periodic a-trous filter bank) and its inverse.

pmod(q, n) is the representative of q modulo n in [0, n) (n >= 1).  The folding rules
(multiples of n vanish, nested applications collapse) are proved in lean/Periodic.lean."""
from specs.convn import *  # noqa: F401,F403

PAD = 'stationary_transform._circular_pad'


def pmod(q, n):
    return ir.mkuf('pmod', (q, n))


def divisible(p, n):
    """p is a multiple of the polynomial n, by inspection"""
    if p == ZERO:
        return True
    k = n.const()
    if k is not None:
        return all(c % k == 0 for c in p.t.values())
    return ir.monic_div(p, n) is not None or symm.multiple_of(p, n) is not None


def reduce(q, n):
    """An expression congruent to q modulo n."""
    while True:
        t = {}
        extra = ZERO
        for m, c in q.t.items():
            if divisible(P({m: c}), n):
                continue
            if len(m) == 1 and m[0][0] == 'uf' and m[0][1] == 'pmod' and divisible(m[0][2][1], n):
                extra = add(extra, scale(m[0][2][0], c))
                continue
            if len(m) == 1 and m[0][0] == 'ite':
                a, b = m[0][2], m[0][3]
                if divisible(reduce(scale(sub(a, b), c), n), n):
                    extra = add(extra, scale(a, c))
                    continue
            t[m] = c
        r = add(P(t), extra)
        if r == q:
            return r
        q = r


def fold(args):
    q, n = args
    if n.const() is not None and n.const() >= 1 and q.const() is not None:
        return K(q.const() % n.const())
    if n == ONE:
        return ZERO
    r = reduce(q, n)
    return None if r == q else ir.mkuf('pmod', (r, n))


def axiom(q, n):
    s = ir.atom(('uf', 'pmod', (q, n)))
    out = [bor(bnot(le(ONE, n)), band(ge0(s), lt(s, n)))]
    for c in (q, add(q, n), sub(q, n)):
        out.append(bor(bnot(band(ge0(c), lt(c, n))), eq(s, c)))
    return out


def setup():
    ir.UF_FOLD['pmod'] = fold
    ir.UFAXIOMS['pmod'] = axiom


# ------------------------------------------------------------------ _circular_pad
def pad_post(x, pl, pr):
    n = prod(x.groups[-1])
    k = len(x.groups[-1])
    return T.remap(x, len(x.groups) - 1, add(add(n, pl), pr), lambda t: pmod(sub(t, pl), n), view=False)


def pad_contract(f, a, k):
    C = core.C
    x = a[0] if a else k['x']
    ps = a[1] if len(a) > 1 else k['padding_dimensions']
    pl, pr = [top(v) for v in ps]
    n = prod(x.groups[-1])
    C.oblige('precondition of _circular_pad: a signal of at least one sample with 2 or 3 dimensions, pads not negative',
             band(le(ONE, n), ge0(pl), ge0(pr)), f'len {n}, pads {pl}, {pr}')
    if len(x.groups) not in (2, 3):
        C.record('precondition of _circular_pad: 2 or 3 dimensions', 'unknown', backend='-', time=0)
        raise Unsupported('_circular_pad of another rank')
    return pad_post(x, pl, pr)


class Ints:
    """Integer ghost sequences offered to the loop invariants."""

    def __init__(self, name, sizes):
        self.name, self.sizes = name, sizes


def pad_spec(W, rank, kind):
    f = W.load('stationary_transform')._circular_pad

    def body():
        C = core.C
        setup()
        n, pl, pr = V('n'), V('pl'), V('pr')
        C.assume(band(le(ONE, n), ge0(pl), ge0(pr)))
        lead = [V(f'B{k}') for k in range(rank - 1)]
        for b in lead:
            C.assume(le(ONE, b))
        # pmod(t, n) = t for the valid positions 0 <= t < n
        x = SymTensor([(b,) for b in lead] + [(n,)], lambda flat: e_atom('S', list(flat[:-1]) + [pmod(flat[-1], n)]), F64, None, Storage('x'))
        # ghosts: number of whole periods added on either side after i iterations
        cnt = []
        for nm, p in (('nl', pl), ('nr', pr)):
            def ufold(args, nm=nm, p=p):
                i = args[0]
                if i.const() == 0:
                    return ZERO
                if i.t.get((), 0) >= 1:
                    c = ir.mkuf(nm, (sub(i, ONE),))
                    return add(c, ite(lt(n, sub(p, mul(n, c))), ONE, ZERO))
                return None

            def ax(i, nm=nm, p=p):
                c = ir.atom(('uf', nm, (i,)))
                return [bor(bnot(ge0(i)), band(ge0(c), ge0(sub(p, mul(n, c))), ge0(mul(n, c)))), bor(bnot(eq(i, ZERO)), eq(c, ZERO))]
            # the fact stated by ax is inductive
            c = C.fint('c')
            C.oblige(f'the remaining width of {nm} stays non-negative (induction step)',
                     bor(bnot(band(ge0(c), ge0(sub(p, mul(n, c))), lt(n, sub(p, mul(n, c))))), ge0(sub(p, mul(n, add(c, ONE))))))
            ir.UF_FOLD[nm] = ufold
            ir.UFAXIOMS[nm] = ax
            cnt.append(lambda i, nm=nm: ir.mkuf(nm, (i,)))
        cl, cr = cnt
        rl, rr = (lambda i: sub(pl, mul(n, cl(i)))), (lambda i: sub(pr, mul(n, cr(i))))
        C.ghosts['P'] = vc.Ghost('P', lead, [lambda i: add(n, mul(n, add(cl(i), cr(i))))], F64)
        eqprove.UNFOLD['P'] = lambda ix: e_atom('S', list(ix[1:-1]) + [pmod(sub(ix[-1], mul(n, cl(ix[0]))), n)])
        C.ghosts['w'] = Ints('remaining widths', [rl, rr, lambda i: mul(n, cl(i)), lambda i: mul(n, cr(i)), cl, cr])
        i = C.fint('i')
        dom = band(ge0(i), bor(lt(n, rl(i)), lt(n, rr(i))))
        nx = add(i, ONE)
        C.oblige('while a width exceeds a period, the widths remaining after one more iteration are smaller and not negative (termination)',
                 bor(bnot(dom), band(lt(add(rl(nx), rr(nx)), add(rl(i), rr(i))), ge0(rl(nx)), ge0(rr(nx)))))
        C.bodies = {PAD}
        arg = (mk(pl), mk(pr)) if kind == 'tuple' else core.TList.of([core.El(mk(pl)), core.El(mk(pr))])
        if kind == 'list':
            arg.frozen = 'padding_dimensions'
        r = verify.call('_circular_pad', f, x, arg)
        expect_type('the result is a tensor', r, SymTensor)
        verify.oblige_eq('result[t] = x[(t - padl) mod n]', r, pad_post(x, pl, pr))
        frame_obligation()
    return f'_circular_pad[rank={rank},pads as {kind}]', body


# ------------------------------------------------------------------ swt
def swt_setup(lay, level, dtype=F64):
    C = core.C
    w = begin(lay, dtype=dtype)
    setup()
    C.store['contracts'] = dict(vc.CONTRACTS)
    C.store['contracts'][PAD] = pad_contract
    return w


def band_sum(w, f, entry, d, t, n):
    """sum_k dec_f[k] A[(t + d (h - k)) mod n]"""
    h = V('h')
    return e_sum(w.L, lambda k: e_mul(e_atom(w.pre + filt_name('dec', f), [k]), entry(pmod(add(t, mul(d, sub(h, k))), n))))


def pow2(i):
    return ir.mkuf('pow2', (i,))


def swt_spec(W, rank, axis, wav='obj', dtype=F64, defax=False, level='sym', frozen=True, device=None):
    swt = W.load('stationary_transform').swt

    def body():
        C = core.C
        lay = Layout(rank, [axis], device)
        w = swt_setup(lay, level, dtype)
        N = V('N0')
        C.assume(le(ONE, N))
        nl = len(lay.lead)
        if level == 'sym':
            J = V('J')
            C.assume(ge0(J))
        else:
            J = ir.mkuf('swtmax', (N,))
        A = 'A'

        def unfold(ix):
            i, b, t = ix[0], list(ix[1:1 + nl]), ix[-1]
            if i.const() == 0:
                return e_atom('X', b + [t])
            if i.t.get((), 0) >= 1:
                i = sub(i, ONE)
                return band_sum(w, 'a', lambda q: e_atom(A, [i] + b + [q]), pow2(i), t, N)
            return None
        eqprove.UNFOLD[A] = unfold
        data = lay.tensor([N], lambda b, t: e_atom('X', b + t), dtype, name='data')
        C.ghosts[A] = vc.Ghost(A, lay.lead, [lambda i: N], dtype, data.device)
        kw = {} if defax else {'axis': axis}
        if level == 'sym':
            kw['level'] = mk(J)
        r = verify.call('swt', swt, data, wavelet_arg(w, wav, dtype, device), **kw)
        expect_type('the result is a list', r, core.TList)
        verify.oblige_eq('the number of entries is level + 1', core.sym_len(r), mk(add(J, ONE)))
        verify.oblige_eq('the first entry is A(level)', r[0], lay.tensor([N], lambda b, t: e_atom(A, [J] + b + t), dtype, data.device))
        frame_obligation()
        t = C.fint('t')
        C.assume(band(le(ONE, t), le(t, J)))
        if not C.feasible():
            return
        i = sub(J, t)
        verify.oblige_eq('entry t is the dilated high-pass filtering of A(level - t)', r[mk(t)],
                         lay.tensor([N], lambda b, ts: band_sum(w, 'd', lambda q: e_atom(A, [i] + b + [q]), pow2(i), ts[0], N), dtype, data.device))
    return f'swt[rank={rank},axis={"default" if defax else axis},level={level},wavelet={wav},{dtype}{dev(device)}]', body, swt_case(rank, axis, dtype, level)


def swt_case(rank, axis, dtype, level):
    def f(m):
        L = 2 * max(1, m.get('h', 1))
        n, J = m.get('N0', 1), m.get('J', 1)
        if L > 140 or not 0 <= J <= 8 or n > 5000:
            return None
        shape = [min(3, m.get(f'B{k}', 1)) for k in range(rank)]
        shape[axis % rank] = n
        return dict(kind='swt', w=f'rand:{L}:1', shape=shape, level=J, axes=[axis], seed=1, dt='f4' if dtype is F32 else 'f8', layout=0)
    return f


def iswt_spec(W, rank, axis, wav='obj', dtype=F64, defax=False, container='list', device=None):
    iswt = W.load('stationary_transform').iswt

    def body():
        C = core.C
        lay = Layout(rank, [axis], device)
        w = swt_setup(lay, 'sym', dtype)
        N, J = V('N0'), V('J')
        C.assume(band(le(ONE, N), ge0(J)))
        h = V('h')
        nl = len(lay.lead)
        R = 'R'

        def unfold(ix):
            i, b, t = ix[0], list(ix[1:1 + nl]), ix[-1]
            if i.const() == 0:
                return e_atom('CA', b + [t])
            if i.t.get((), 0) >= 1:
                i = sub(i, ONE)
                d = pow2(sub(sub(J, i), ONE))

                def half(f, entry):
                    return e_sum(w.L, lambda k: e_mul(e_atom(filt_name('rec', f), [k]), entry(pmod(add(t, mul(d, sub(sub(h, ONE), k))), N))))
                return e_scale(e_add(half('a', lambda q: e_atom(R, [i] + b + [q])), half('d', lambda q: e_atom('CD', [i] + b + [q]))), e_half())
            return None
        eqprove.UNFOLD[R] = unfold
        ca = lay.tensor([N], lambda b, t: e_atom('CA', b + t), dtype, None, 'coeffs[0]')
        C.ghosts[R] = vc.Ghost(R, lay.lead, [lambda i: N], dtype, lay.device)
        segs = [core.El(ca), core.Seg(J, lambda p: lay.tensor([N], lambda b, t: e_atom('CD', [p] + b + t), dtype, None, 'a detail'))]
        if container == 'list':
            arg = core.TList.of(segs)
            arg.frozen = 'the coefficient list'
        else:
            arg = core.mk_tuple(segs)
        kw = {} if defax else {'axis': axis}
        r = verify.call('iswt', iswt, arg, wavelet_arg(w, wav, dtype, device), **kw)
        expect_type('the result is a tensor', r, SymTensor)
        JJ = ZERO if C.decide(eq(J, ZERO)) else J
        verify.oblige_eq('the result is the iterated averaged synthesis R(level)', r, lay.tensor([N], lambda b, t: e_atom(R, [JJ] + b + t), dtype))
        frame_obligation('the coefficients')
    return f'iswt[rank={rank},axis={"default" if defax else axis},wavelet={wav},{dtype},{container}{dev(device)}]', body, swt_case(rank, axis, dtype, 'sym')


def e_half():
    from fractions import Fraction
    return Fraction(1, 2)
