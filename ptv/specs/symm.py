"""Contract of _util._pad_symmetric_1d and the theory of the half-sample mirror index.

symidx(q, n) is the representative in [0, n) of q under the group generated by the
reflections q -> -1-q and q -> 2n-1-q.  The folding rules below are consequences of
that definition for n >= 1 (proved in lean/Mirror.lean)."""
from specs.common import *  # noqa: F401,F403
import verify

Q = '_util._pad_symmetric_1d'


def multiple_of(c, n):
    """c as an integer multiple of the polynomial n, or None"""
    if c == ZERO:
        return 0
    if not n.t:
        return None
    m = next(iter(sorted(n.t, key=repr)))
    k, r = divmod(c.t.get(m, 0), n.t[m]) if c.t.get(m, 0) % n.t[m] == 0 else (0, 1)
    if r or k == 0:
        return None
    return k if sub(c, scale(n, k)) == ZERO else None


def lead(n):
    ms = [m for m in n.t if m != ()]
    return max(ms, key=lambda m: (len(m), repr(m))) if ms else None


def reduce2n(q, n):
    """q modulo 2n, choosing a small coefficient of the leading monomial of n"""
    m = lead(n)
    if m is None:
        c = n.const()
        return None
    a, b = q.t.get(m, 0), 2 * n.t[m]
    k = a // b if b > 0 else 0
    return sub(q, scale(n, 2 * k)) if k else q


def fold(args):
    q, n = args
    if n.const() is not None:
        nc, qc = n.const(), q.const()
        if qc is not None and nc >= 1:
            r = qc % (2 * nc)
            return K(r if r < nc else 2 * nc - 1 - r)
        return None
    best = None
    for c in (q, sub(neg(q), ONE)):
        c = reduce2n(c, n)
        # symidx(s + c, n) with s = symidx(x, k n) and c a multiple of n
        for m in c.t:
            if len(m) == 1 and m[0][0] == 'uf' and m[0][1] == 'symidx' and c.t[m] == 1:
                x, kn = m[0][2]
                k = multiple_of(kn, n)
                rest = sub(c, P({m: 1}))
                if k is not None and k >= 1 and multiple_of(rest, n) is not None:
                    return ir.mkuf('symidx', (add(x, rest), n))
        key = (sum(1 for v in c.t.values() if v < 0), repr(sorted(c.t.items(), key=repr)))
        if best is None or key < best[0]:
            best = (key, c)
    return None if best[1] == q else ir.mkuf('symidx', (best[1], n))


def axiom(q, n):
    s = ir.atom(('uf', 'symidx', (q, n)))
    out = [bor(bnot(le(ONE, n)), band(ge0(s), lt(s, n)))]
    for c in (q, sub(neg(q), ONE), sub(sub(scale(n, 2), ONE), q), add(q, scale(n, 2)), sub(q, scale(n, 2))):
        out.append(bor(bnot(band(ge0(c), lt(c, n))), eq(s, c)))
    return out


def setup():
    ir.UF_FOLD['symidx'] = fold
    ir.UFAXIOMS['symidx'] = axiom


def bind(a, k):
    sig = a[0] if a else k['signal']
    pads = a[1] if len(a) > 1 else k['pad_list']
    pl, pr = list(pads)
    return sig, top(pl), top(pr)


def post(sig, pl, pr):
    """The value described by the postcondition."""
    n = prod(sig.groups[0])
    gs = [(add(add(n, pl), pr),)] + list(sig.groups[1:])
    k = len(sig.groups[0])

    def el(flat):
        q = symidx(sub(flat[0], pl), n)
        i = [q] if k == 1 else list(T.unlin(q, sig.groups[0])) if k else []
        return sig.E(i + list(flat[1:]))
    r = SymTensor(gs, el, sig.dtype, sig.device)
    if gs[0][0] == ONE:
        r._elem = lambda flat: el([ZERO] + list(flat))
    r._rg = sig._rg
    return r


def measure(n, pl, pr):
    return ite(band(le(pl, n), le(pr, n)), ZERO, add(pl, pr))


def contract(f, a, k):
    C = core.C
    sig, pl, pr = bind(a, k)
    n = prod(sig.groups[0])
    C.oblige('precondition of _pad_symmetric_1d: 1 <= len(signal), 0 <= pads', band(le(ONE, n), ge0(pl), ge0(pr)),
             f'len {n}, pads {pl}, {pr}')
    cur = C.__dict__.get('symm_measure')
    if cur is not None:
        m = measure(n, pl, pr)
        C.oblige('recursive call of _pad_symmetric_1d decreases its measure', band(ge0(m), lt(m, cur)))
    return post(sig, pl, pr)


def body_spec(W, rank):
    f = W.load('_util')._pad_symmetric_1d

    def body():
        C = core.C
        setup()
        n, pl, pr = V('n'), V('pl'), V('pr')
        C.assume(band(le(ONE, n), ge0(pl), ge0(pr)))
        gs = [(n,)] + [(V(f'B{k}'),) for k in range(rank - 1)]
        for g in gs:
            C.assume(le(ONE, g[0]))
        sig = SymTensor(gs, lambda flat: e_atom('S', flat), F64, None, Storage('signal'))
        C.symm_measure = measure(n, pl, pr)
        C.bodies = {Q}
        r = verify.call('_pad_symmetric_1d', f, sig, (mk(pl), mk(pr)))
        verify.oblige_eq('result[t] = signal[mirror(t - padl)]', r, post(sig, pl, pr))
    return f'_pad_symmetric_1d[rank={rank}]', body


CONTRACTS = {Q: contract}
