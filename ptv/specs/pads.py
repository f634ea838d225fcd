"""C01: the padding step of the convolution transforms."""
from specs.convn import *  # noqa: F401,F403

FUN = {1: ('conv_transform', '_fwt_pad'), 2: ('conv_transform_2', '_fwt_pad2'), 3: ('conv_transform_3', '_fwt_pad3')}


def pad_spec(W, d, mode, wav='obj', explicit=False, dtype=F64):
    mod, fn = FUN[d]

    def body():
        C = core.C
        f = getattr(W.load(mod), fn)
        lay = Layout(d + 2, range(2, d + 2))
        w = begin(lay)
        C.assume(eq(lay.lead[1], ONE))
        lay.lead[1] = ONE
        L = w.L
        N = [V(f'N{q}') for q in range(d)]
        dom = size_dom(mode, L, ONE)
        pads = []
        kw = dict(mode=mode)
        for q, n in enumerate(N):
            C.assume(le(ONE, n))
            if explicit:
                a, b = V(f'pl{q}'), V(f'pr{q}')
                C.assume(band(ge0(a), ge0(b)))
                if mode == 'reflect':
                    C.assume(band(lt(a, n), lt(b, n)))
                if mode == 'periodic':
                    C.assume(band(le(a, n), le(b, n)))
            else:
                C.assume(band(*dom(ZERO, n)))
                a = sub(L, K(2))
                b = add(a, ir.mod(n, K(2)))
            pads.append((a, b))
        if explicit:
            # torch order: last axis first
            kw['padding'] = tuple(mk(x) for p in reversed(pads) for x in p)
        data = lay.tensor(N, lambda b, t: e_atom('X', b + t), dtype, name='data')
        r = verify.call(fn, f, data, wavelet_arg(w, wav, dtype), **kw)
        exp = lay.tensor([add(add(a, n), b) for (a, b), n in zip(pads, N)],
                         lambda b, ts: ext_nd(lambda t: e_atom('X', b + t), [sub(t, p[0]) for t, p in zip(ts, pads)], N, mode), dtype, data.device)
        verify.oblige_eq('padded[j] = ext(j - padl) with the specified widths', r, exp)
        if not explicit:
            for q, n in enumerate(N):
                out = add(ir.div(sub(add(add(n, pads[q][0]), pads[q][1]), L), K(2)), ONE)
                C.oblige('one stride-2 filtering of the padded axis gives floor((n+L-1)/2) coefficients', eq(out, ir.div(sub(add(n, L), ONE), K(2))))
        frame_obligation()
    return f'{fn}[{mode},wavelet={wav},{"explicit widths" if explicit else "default widths"}]', body
