"""Which contracts decide which property."""
import itertools

from specs import cwt, convn, pads, swt, symm, mats, losses, matrix, matrixn, orth, packets, reject
from specs.common import MODES, F32, F64

TRUST = dict(
    core='exact real arithmetic stands for floating point; Python integers are unbounded',
    torch='library contracts of ptv/fakes.py and ptv/tensor.py for torch, numpy, pywt and more_itertools (compared with the real libraries by ptv/selftest.py)',
)


def axes_of(d):
    return list(range(-d, 0))


def dec(fam, d, modes=MODES, thorough=False):
    out = []
    for m in modes:
        for wav in ('obj', 'name', 'tuple'):
            out.append(lambda W, m=m, wav=wav: convn.analysis_spec(W, fam, d, m, d + 1, axes_of(d), wav=wav))
        out.append(lambda W, m=m: convn.analysis_spec(W, fam, d, m, d, axes_of(d), defax=True))
        out.append(lambda W, m=m: convn.analysis_spec(W, fam, d, m, d + 2, axes_of(d), defax=True))
        out.append(lambda W, m=m: convn.analysis_spec(W, fam, d, m, d + 1, axes_of(d), dtype=F32))
    return out


def rec(fam, d):
    out = []
    for wav in ('obj', 'name', 'tuple'):
        out.append(lambda W, wav=wav: convn.synthesis_spec(W, fam, d, d + 1, axes_of(d), wav=wav))
    for rank in (d, d + 2):
        out.append(lambda W, rank=rank: convn.synthesis_spec(W, fam, d, rank, axes_of(d), defax=True))
    for c in ('list', 'tuple'):
        out.append(lambda W, c=c: convn.synthesis_spec(W, fam, d, d + 1, axes_of(d), container=c, defax=True))
    if not (fam == 'conv' and d < 3):
        w = convn.WORDS[d]
        if fam == 'sep' and d == 2:
            w = ['ad', 'da', 'dd']
        for o in (w[::-1], w[1:] + w[:1], sorted(w, key=lambda k: k[::-1])):
            out.append(lambda W, o=tuple(o): convn.synthesis_spec(W, fam, d, d + 1, axes_of(d), order=o, defax=True))
    out.append(lambda W: convn.synthesis_spec(W, fam, d, d + 1, axes_of(d), dtype=F32))
    return out


def symmetric():
    return [lambda W, r=r: symm.body_spec(W, r) for r in (1, 2, 3, 4, 5)]


def C01(t):
    out = symmetric()
    for d in (1, 2, 3):
        for m in MODES:
            for wav in ('obj', 'name', 'tuple'):
                out.append(lambda W, d=d, m=m, wav=wav: pads.pad_spec(W, d, m, wav))
            out.append(lambda W, d=d, m=m: pads.pad_spec(W, d, m, explicit=True))
            out.append(lambda W, d=d, m=m: pads.pad_spec(W, d, m, dtype=F32))
    return out


def C16(t):
    M = matrix
    out = []
    for m in MODES:
        for wav in ('obj', 'name'):
            out.append(lambda W, m=m, wav=wav: M.wavedec_spec(W, m, wav=wav))
        out.append(lambda W, m=m: M.wavedec_spec(W, m, dtype=F32))
        out.append(lambda W, m=m: M.wavedec_spec(W, m, level=None))
        for rank in (1, 2, 3, 4):
            for ax in range(-rank, rank):
                out.append(lambda W, m=m, rank=rank, ax=ax: M.wavedec_spec(W, m, rank=rank, axis=ax))
    for rank in (1, 3):
        out.append(lambda W, rank=rank: M.wavedec_spec(W, 'zero', rank=rank, defaults=True))
        out.append(lambda W, rank=rank: M.waverec_spec(W, rank=rank, defaults=True))
    out.append(lambda W: M.wavedec_spec(W, 'zero', defaults=True, level=None))
    out.append(lambda W: M.wavedec_spec(W, 'zero', method='gramschmidt'))
    out.append(lambda W: M.waverec_spec(W, method='gramschmidt'))
    for wav in ('obj', 'name'):
        out.append(lambda W, wav=wav: M.waverec_spec(W, wav=wav))
    for c in ('list', 'tuple'):
        out.append(lambda W, c=c: M.waverec_spec(W, container=c))
    out.append(lambda W: M.waverec_spec(W, dtype=F32))
    for rank in (1, 2, 3, 4):
        for ax in range(-rank, rank):
            out.append(lambda W, rank=rank, ax=ax: M.waverec_spec(W, rank=rank, axis=ax))
    for meth in M.METHODS:
        for dt in (F64, F32):
            out.append(lambda W, meth=meth, dt=dt: M.fwt_operator_spec(W, method=meth, dtype=dt))
            out.append(lambda W, meth=meth, dt=dt: M.ifwt_operator_spec(W, method=meth, dtype=dt))
    out.append(lambda W: M.orthogonal_spec(W))
    for sy in (False, True):
        for wav in ('obj', 'name'):
            out.append(lambda W, sy=sy, wav=wav: M.raw_spec(W, sy, wav=wav))
            for meth in M.METHODS:
                out.append(lambda W, sy=sy, wav=wav, meth=meth: M.boundary_spec(W, sy, method=meth, wav=wav))
        for m in mats.CM:
            out.append(lambda W, sy=sy, m=m: M.raw_spec(W, sy, mode=m))
        for dt, dv in ((F32, 'cpu'), (F64, 'cuda:0')):
            out.append(lambda W, sy=sy, dt=dt, dv=dv: M.raw_spec(W, sy, dtype=dt, device=dv))
            out.append(lambda W, sy=sy, dt=dt, dv=dv: M.boundary_spec(W, sy, dtype=dt, device=dv))
        out.append(lambda W, sy=sy: M.boundary_spec(W, sy, defaults=True))
    return out


def C19(t):
    M = matrix
    out = []
    for same in (True, False):
        for kw in ({}, dict(level=None), dict(dt=(F32, F64)), dict(dt=(F64, F32)), dict(dv=('cpu', 'cuda:0')), dict(ranks=(3, 1)), dict(ranks=(1, 3)),
                   dict(mode='symmetric', method='gramschmidt')):
            out.append(lambda W, same=same, kw=kw: M.dec_history_spec(W, same, **kw))
        for fail in (None, 'shape'):
            for kw in ({}, dict(dt=(F32, F64)), dict(dt=(F64, F32)), dict(dv=('cpu', 'cuda:0')), dict(ranks=(3, 1)), dict(method='gramschmidt')):
                out.append(lambda W, same=same, fail=fail, kw=kw: M.rec_history_spec(W, same, fail, **kw))
    return out


def matrix_nd(d):
    N = matrixn
    out = []
    for m in MODES:
        out.append(lambda W, m=m: N.wavedecn_spec(W, d, m))
    for kw in (dict(wav='name'), dict(dtype=F32), dict(method='gramschmidt'), dict(level=None), dict(defaults=True), dict(defaults=True, level=None), dict(rank=d), dict(rank=d + 2)):
        out.append(lambda W, kw=kw: N.wavedecn_spec(W, d, 'zero', **kw))
    for rank in (d, d + 1):
        for ax in axes_variants(d, rank, 'quick')[1::4]:
            out.append(lambda W, rank=rank, ax=ax: N.wavedecn_spec(W, d, 'zero', rank=rank, axes=ax))
            out.append(lambda W, rank=rank, ax=ax: N.waverecn_spec(W, d, rank=rank, axes=ax))
    for kw in (dict(), dict(wav='name'), dict(dtype=F32), dict(method='gramschmidt'), dict(defaults=True), dict(rank=d), dict(rank=d + 2), dict(container='list')):
        out.append(lambda W, kw=kw: N.waverecn_spec(W, d, **kw))
    if d == 3:
        w = convn.WORDS[3]
        for o in (w[::-1], w[1:] + w[:1], sorted(w, key=lambda k: k[::-1])):
            out.append(lambda W, o=tuple(o): N.waverecn_spec(W, 3, order=o))
    return out + builders()


def nonseparable():
    N = matrixn
    out = []
    for m in MODES:
        out.append(lambda W, m=m: N.wavedecn_spec(W, 2, m, separable=False))
    for kw in (dict(wav='name'), dict(dtype=F32), dict(method='gramschmidt'), dict(level=None), dict(defaults=True), dict(rank=2), dict(rank=4)):
        out.append(lambda W, kw=kw: N.wavedecn_spec(W, 2, 'zero', separable=False, **kw))
    for kw in (dict(), dict(wav='name'), dict(dtype=F32), dict(method='gramschmidt'), dict(defaults=True), dict(rank=2), dict(rank=4), dict(container='list')):
        out.append(lambda W, kw=kw: N.waverecn_spec(W, 2, separable=False, **kw))
    for rank in (2, 3):
        for ax in axes_variants(2, rank, 'quick'):
            out.append(lambda W, rank=rank, ax=ax: N.wavedecn_spec(W, 2, 'zero', rank=rank, axes=ax, separable=False))
            out.append(lambda W, rank=rank, ax=ax: N.waverecn_spec(W, 2, rank=rank, axes=ax, separable=False))
    out.append(lambda W: N.orthogonal2_spec(W))
    for sy in (False, True):
        for kw in [dict(), dict(wav='name'), dict(dtype=F32), dict(device='cuda:0')] + [dict(mode=m) for m in mats.CM]:
            out.append(lambda W, sy=sy, kw=kw: N.raw2_spec(W, sy, **kw))
        for kw in (dict(), dict(method='gramschmidt'), dict(wav='name'), dict(dtype=F32, device='cuda:0'), dict(defaults=True)):
            out.append(lambda W, sy=sy, kw=kw: N.boundary2_spec(W, sy, **kw))
    return out


def builders():
    """the 1-D boundary matrices, and the batched products the separable transforms use"""
    out = []
    for sy in (False, True):
        for meth in matrix.METHODS:
            out.append(lambda W, sy=sy, meth=meth: matrix.boundary_spec(W, sy, method=meth))
        out.append(lambda W, sy=sy: matrix.raw_spec(W, sy))
    for co in (True, False):
        out.append(lambda W, co=co: mats.bmm_spec(W, co, F64, 'cpu'))
        for rank, dims in ((3, (-1, -2)), (4, (-1, -2, -3))):
            for dim in dims:
                out.append(lambda W, co=co, rank=rank, dim=dim: mats.dim_spec(W, rank, dim, co, F64, 'cpu'))
    return out


def C25(t):
    out = []
    for cls in ('ProductFilter', 'SoftOrthogonalWavelet'):
        for dt in (F64, F32):
            for dv in ('cpu', 'cuda:0'):
                out.append(lambda W, cls=cls, dt=dt, dv=dv: losses.product_spec(W, cls, dt, dv))
                out.append(lambda W, cls=cls, dt=dt, dv=dv: losses.other_spec(W, cls, dt, dv))
    return out


def C27(t):
    out = []
    for fam, d in (('conv', 1), ('conv', 2), ('conv', 3), ('sep', 2), ('sep', 3)):
        for rank in range(d, d + 3):
            vs = axes_variants(d, rank, t)
            for ax in [tuple(range(-d, 0))] + (vs if t == 'thorough' else vs[::max(1, len(vs) // 4)]):
                for wav in ('obj', 'name', 'tuple') if ax == tuple(range(-d, 0)) else ('obj',):
                    out.append(lambda W, fam=fam, d=d, rank=rank, ax=ax, wav=wav: convn.analysis_spec(W, fam, d, 'zero', rank, ax, level=None, wav=wav))
    for rank in (1, 2, 3):
        for ax in axes_variants(1, rank, t):
            out.append(lambda W, rank=rank, ax=ax: swt.swt_spec(W, rank, ax[0], level=None))
    return out + packet_init(t == 'thorough', (False,))


def axes_variants(d, rank, full):
    """every choice of d distinct axes, with negative, positive and mixed signs"""
    out = []
    for k, p in enumerate(itertools.permutations(range(rank), d)):
        out.append(p)
        neg = tuple(a - rank for a in p)
        out.append(neg)
        if d > 1:
            out.append(tuple(a - rank if (i + k) % 2 else a for i, a in enumerate(p)))
    return out


def C10(t):
    out = []
    for fam, d in (('conv', 1), ('conv', 2), ('conv', 3), ('sep', 2), ('sep', 3)):
        for rank in range(d, 5 if d < 3 else 6 if t == 'thorough' else 5):
            for i, ax in enumerate(axes_variants(d, rank, t)):
                m = MODES[i % 5] if fam == 'conv' and d < 3 else 'zero'
                out.append(lambda W, fam=fam, d=d, m=m, rank=rank, ax=ax: convn.analysis_spec(W, fam, d, m, rank, ax))
                out.append(lambda W, fam=fam, d=d, rank=rank, ax=ax: convn.synthesis_spec(W, fam, d, rank, ax))
    for rank in range(1, 5):
        for ax in axes_variants(1, rank, t):
            out.append(lambda W, rank=rank, ax=ax: swt.swt_spec(W, rank, ax[0]))
            out.append(lambda W, rank=rank, ax=ax: swt.iswt_spec(W, rank, ax[0]))
    for rank in range(1, 5):
        for ax in range(-rank, rank):
            out.append(lambda W, rank=rank, ax=ax: matrix.wavedec_spec(W, 'zero', rank=rank, axis=ax))
            out.append(lambda W, rank=rank, ax=ax: matrix.waverec_spec(W, rank=rank, axis=ax))
    for d in (2, 3):
        for rank in range(d, 5):
            for i, ax in enumerate(axes_variants(d, rank, t)):
                if d == 2 or t == 'thorough' or i % 7 == 3:  # quick: every seventh choice in three dimensions
                    out.append(lambda W, d=d, rank=rank, ax=ax: matrixn.wavedecn_spec(W, d, 'zero', rank=rank, axes=ax))
                out.append(lambda W, d=d, rank=rank, ax=ax: matrixn.waverecn_spec(W, d, rank=rank, axes=ax))
                if d == 2:
                    out.append(lambda W, rank=rank, ax=ax: matrixn.wavedecn_spec(W, 2, 'zero', rank=rank, axes=ax, separable=False))
                    out.append(lambda W, rank=rank, ax=ax: matrixn.waverecn_spec(W, 2, rank=rank, axes=ax, separable=False))
    for d in (1, 2):
        for rank in range(d, 5):
            for i, ax in enumerate(axes_variants(d, rank, t)):
                m = ('zero', 'boundary')[i % 2]
                k = {} if d == 1 else dict(separable=bool(i // 2 % 2))
                c = packets.CHARS[d][i % 2 ** d]
                out.append(lambda W, a=(d, rank, ax, m, c), k=k: packets.getitem_spec(W, *a, **k))
                out.append(lambda W, a=(d, rank, ax, m), k=k: packets.reconstruct_spec(W, *a, **k))
    return out + symmetric() + circular()


def boundary_transforms(d, **kw):
    """analysis and synthesis with boundary wavelets, and the non-separable ones in two dimensions"""
    if d == 1:
        return [lambda W: matrix.wavedec_spec(W, 'zero', **kw), lambda W: matrix.waverec_spec(W, **kw)]
    out = [lambda W: matrixn.wavedecn_spec(W, d, 'zero', **kw), lambda W: matrixn.waverecn_spec(W, d, **kw)]
    if d == 2:
        out += [lambda W: matrixn.wavedecn_spec(W, d, 'zero', separable=False, **kw), lambda W: matrixn.waverecn_spec(W, d, separable=False, **kw)]
    return out


def circular():
    return [lambda W, r=r, k=k: swt.pad_spec(W, r, k) for r in (2, 3) for k in ('list', 'tuple')]


def C11(t):
    out = circular()
    for wav in ('obj', 'name', 'tuple'):
        out.append(lambda W, wav=wav: swt.swt_spec(W, 2, -1, wav=wav))
    for r in (1, 3):
        out.append(lambda W, r=r: swt.swt_spec(W, r, -1, defax=True))
    out.append(lambda W: swt.swt_spec(W, 2, -1, dtype=F32))
    out.append(lambda W: swt.swt_spec(W, 2, -1, level=None))
    return out


def C12(t):
    out = circular()
    for wav in ('obj', 'name', 'tuple'):
        out.append(lambda W, wav=wav: swt.iswt_spec(W, 2, -1, wav=wav))
    for r in (1, 3):
        out.append(lambda W, r=r: swt.iswt_spec(W, r, -1, defax=True))
    out.append(lambda W: swt.iswt_spec(W, 2, -1, dtype=F32))
    out.append(lambda W: swt.iswt_spec(W, 2, -1, container='tuple'))
    return out


def C26(t):
    out = symmetric() + circular()
    for fam, d in (('conv', 1), ('conv', 2), ('conv', 3), ('sep', 2), ('sep', 3)):
        ax = axes_of(d)
        for m in MODES:
            out.append(lambda W, fam=fam, d=d, m=m: convn.analysis_spec(W, fam, d, m, d + 1, axes_of(d), dtype=F32, device='dev'))
        for dt in (F32, F64):
            for wav in ('name', 'tuple', 'foreign'):
                out.append(lambda W, fam=fam, d=d, wav=wav, dt=dt: convn.analysis_spec(W, fam, d, 'symmetric', d + 1, axes_of(d), dtype=dt, device='dev', wav=wav))
            for wav in ('obj', 'name', 'tuple', 'foreign'):
                out.append(lambda W, fam=fam, d=d, wav=wav, dt=dt: convn.synthesis_spec(W, fam, d, d + 1, axes_of(d), dtype=dt, device='dev', wav=wav))
        out.append(lambda W, fam=fam, d=d: convn.analysis_spec(W, fam, d, 'zero', d, axes_of(d), defax=True, dtype=F32, device='dev', level=None))
    for dt in (F32, F64):
        for wav in ('obj', 'name', 'tuple', 'foreign'):
            out.append(lambda W, wav=wav, dt=dt: swt.swt_spec(W, 2, -1, wav=wav, dtype=dt, device='dev'))
            out.append(lambda W, wav=wav, dt=dt: swt.iswt_spec(W, 2, -1, wav=wav, dtype=dt, device='dev'))
    for dt in (F32, F64):
        for d in (1, 2, 3):
            for wav in ('obj', 'name')[:2 if d < 3 else 1]:
                out += boundary_transforms(d, wav=wav, dtype=dt, device='dev')
        for sy in (False, True):
            for dv in ('cpu', 'cuda:0'):
                out.append(lambda W, sy=sy, dt=dt, dv=dv: matrix.raw_spec(W, sy, dtype=dt, device=dv))
                out.append(lambda W, sy=sy, dt=dt, dv=dv: matrix.boundary_spec(W, sy, dtype=dt, device=dv))
                out.append(lambda W, sy=sy, dt=dt, dv=dv: matrixn.raw2_spec(W, sy, dtype=dt, device=dv))
                out.append(lambda W, sy=sy, dt=dt, dv=dv: matrixn.boundary2_spec(W, sy, dtype=dt, device=dv))
        for dv in ('cpu', 'dev'):
            for m in mats.CM:
                out.append(lambda W, m=m, dt=dt, dv=dv: mats.conv1_spec(W, m, dtype=dt, device=dv))
                out.append(lambda W, m=m, dt=dt, dv=dv: mats.strided1_spec(W, m, dtype=dt, device=dv))
                out.append(lambda W, m=m, dt=dt, dv=dv: mats.conv2_spec(W, m, dtype=dt, device=dv))
                out.append(lambda W, m=m, dt=dt, dv=dv: mats.strided2_spec(W, m, dtype=dt, device=dv))
            for me in ('qr', 'gramschmidt'):
                out.append(lambda W, me=me, dt=dt, dv=dv: orth.orth_spec(W, me, False, False, True, dt, dv))
    for dt in (F32, F64):
        out += packet_some(dtype=dt, device='dev')
    return out + cwt.specs()


def C22(t):
    out = symmetric() + circular()
    for fam, d in (('conv', 1), ('conv', 2), ('conv', 3), ('sep', 2), ('sep', 3)):
        for m in MODES:
            out.append(lambda W, fam=fam, d=d, m=m: convn.analysis_spec(W, fam, d, m, d + 1, axes_of(d), wav='tuple'))
        for rank in (d, d + 1, d + 2):
            mixed = tuple(a if i % 2 else a + rank for i, a in enumerate(axes_of(d)))
            rev = tuple(range(d))[::-1]
            for ax in (tuple(axes_of(d)), mixed, rev):
                out.append(lambda W, fam=fam, d=d, rank=rank, ax=ax: convn.analysis_spec(W, fam, d, 'zero', rank, ax, wav='tuple'))
                for c in ('list', 'tuple'):
                    out.append(lambda W, fam=fam, d=d, rank=rank, ax=ax, c=c: convn.synthesis_spec(W, fam, d, rank, ax, wav='tuple', container=c))
    for rank in (1, 2, 3):
        for ax in (-1, 0):
            out.append(lambda W, rank=rank, ax=ax: swt.swt_spec(W, rank, ax, wav='tuple'))
            for c in ('list', 'tuple'):
                out.append(lambda W, rank=rank, ax=ax, c=c: swt.iswt_spec(W, rank, ax, wav='tuple', container=c))
    for d in (1, 2, 3):
        for rank in (d, d + 1, d + 2)[:3 if d < 3 else 2]:
            out += boundary_transforms(d, rank=rank)
    for c in ('list', 'tuple'):
        out.append(lambda W, c=c: matrix.waverec_spec(W, container=c))
        for d in (2, 3):
            out.append(lambda W, c=c, d=d: matrixn.waverecn_spec(W, d, container=c))
        out.append(lambda W, c=c: matrixn.waverecn_spec(W, 2, container=c, separable=False))
    for sy in (False, True):
        out.append(lambda W, sy=sy: matrix.raw_spec(W, sy))
        out.append(lambda W, sy=sy: matrixn.raw2_spec(W, sy))
        out.append(lambda W, sy=sy: matrix.boundary_spec(W, sy))
        out.append(lambda W, sy=sy: matrixn.boundary2_spec(W, sy))
    return out + C14(t) + C13('quick')[:20] + C15(t) + C25(t) + packet_some() + cwt.specs()[::2]


def C13(t):
    out = []
    for m in mats.CM:
        out.append(lambda W, m=m: mats.conv1_spec(W, m))
        for st in ('sym', None):
            out.append(lambda W, m=m, st=st: mats.strided1_spec(W, m, stride=st))
        out.append(lambda W, m=m: mats.conv1_spec(W, m, dtype=F32, device='dev'))
        out.append(lambda W, m=m: mats.strided1_spec(W, m, dtype=F32, device='dev'))
        out.append(lambda W, m=m: mats.strided1_spec(W, m, modular=False))
    out.append(lambda W: mats.conv1_spec(W, 'valid', defmode=True))
    for m in mats.CM:
        out.append(lambda W, m=m: mats.conv2_spec(W, m))
        for st in ('sym', None):
            out.append(lambda W, m=m, st=st: mats.strided2_spec(W, m, stride=st))
        out.append(lambda W, m=m: mats.conv2_spec(W, m, dtype=F32, device='dev'))
        out.append(lambda W, m=m: mats.conv2_spec(W, m, fully=False))
        out.append(lambda W, m=m: mats.strided2_spec(W, m, dtype=F32, device='dev'))
    out.append(lambda W: mats.conv2_spec(W, 'valid', defmode=True))
    out.append(lambda W: mats.strided2_spec(W, None))
    return out


def C14(t):
    out = []
    for ca, cb in ((True, True), (False, True), (True, False), (False, False)):
        out.append(lambda W, ca=ca, cb=cb: mats.kron_spec(W, ca, cb))
    for da, db in ((F32, F64), (F64, F32), (F32, F32)):
        out.append(lambda W, da=da, db=db: mats.kron_spec(W, da=da, db=db, device='dev'))
    for dt, dv in ((F64, 'cpu'), (F32, 'dev')):
        out.append(lambda W, dt=dt, dv=dv: mats.diag_spec(W, dt, dv))
        out.append(lambda W, dt=dt, dv=dv: mats.dense_kron_spec(W, dt, dv))
        for co in (True, False):
            out.append(lambda W, dt=dt, dv=dv, co=co: mats.cat_spec(W, co, dt, dv))
            out.append(lambda W, dt=dt, dv=dv, co=co: mats.bmm_spec(W, co, dt, dv))
            for cr in (True, False):
                out.append(lambda W, dt=dt, dv=dv, co=co, cr=cr: mats.row_spec(W, co, cr, dt, dv, 'int' if cr else '0-d tensor'))
            for rank in (2, 3, 4, 5):
                for dim in range(-rank, rank):
                    out.append(lambda W, dt=dt, dv=dv, co=co, rank=rank, dim=dim: mats.dim_spec(W, rank, dim, co, dt, dv))
    return out


def C15(t):
    out = []
    for co in (True, False):
        for dt, dv in ((F64, 'cpu'), (F32, 'dev')):
            out.append(lambda W, co=co, dt=dt, dv=dv: orth.qr_spec(W, co, dt, dv))
            out.append(lambda W, co=co, dt=dt, dv=dv: orth.gs_spec(W, co, dt, dv))
            out.append(lambda W, co=co, dt=dt, dv=dv: orth.select_spec(W, co, dt, dv))
            for me, de in (('qr', False), ('qr', True), ('gramschmidt', False)):
                for full in (False, True):
                    out.append(lambda W, co=co, dt=dt, dv=dv, me=me, de=de, full=full: orth.orth_spec(W, me, de, full, co, dt, dv))
    return out


def C23(t):
    full = t == 'thorough'
    out = []

    def add_all(f, *a, n=None, **k):
        for i in range(n or len(f(None, *a, **k))):
            out.append(lambda W, i=i: f(W, *a, **k)[i])
    heavy = [('conv', 3, 4), ('mat', 3, 3), ('sep', 3, 4), ('full', 2, 3), ('mat', 2, 3), ('conv', 2, 3), ('sep', 2, 3), ('mat', 1, 2), ('conv', 1, 2), ('swt', 1, 2)]
    if full:
        heavy += [('mat', 3, 4), ('sep', 3, 3), ('full', 2, 2), ('full', 2, 4), ('mat', 2, 2), ('mat', 2, 4), ('conv', 2, 2), ('conv', 2, 4), ('sep', 2, 4), ('mat', 1, 1), ('mat', 1, 3),
                  ('conv', 1, 1), ('conv', 1, 3), ('swt', 1, 1), ('swt', 1, 3)]
    for fam, d, rank in heavy:
        add_all(reject.coeff_specs, fam, d, rank, every=full)
        if full and rank > d and (fam, d) != ('conv', 3):
            add_all(reject.coeff_specs, fam, d, rank, axes=tuple(range(d))[::-1], every=False)
    for fam, d in (('mat', 1), ('mat', 2), ('full', 2), ('mat', 3)):
        out.append(lambda W, fam=fam, d=d: reject.matrices_spec(W, fam, d))
    for fam, d in (('conv', 1), ('conv', 2), ('conv', 3), ('sep', 2), ('sep', 3), ('swt', 1), ('mat', 1), ('mat', 2), ('full', 2), ('mat', 3)):
        add_all(reject.analysis_specs, fam, d, (d, d + 1, d + 2) if full else (d, d + 1))
        for rank in (d, d + 1) if full else (d + 1,):
            add_all(reject.rec_axes_specs, fam, d, rank)
    for d in (1, 2, 3):
        add_all(reject.constructor_specs, d, n=4 if d == 2 else 3)
    add_all(reject.builder_specs, n=11)
    # well-formed input is accepted
    for fam, d in (('conv', 1), ('conv', 2), ('conv', 3), ('sep', 2), ('sep', 3)):
        for rank in (d, d + 1):
            out.append(lambda W, fam=fam, d=d, rank=rank: convn.analysis_spec(W, fam, d, 'zero', rank, tuple(range(-d, 0)), dtype=F32 if rank == d else F64))
            out.append(lambda W, fam=fam, d=d, rank=rank: convn.synthesis_spec(W, fam, d, rank, tuple(range(-d, 0)), container='list' if d == 1 else 'tuple'))
    for c in ('list', 'tuple'):
        out.append(lambda W, c=c: swt.iswt_spec(W, 2, -1, container=c))
        out.append(lambda W, c=c: matrix.waverec_spec(W, container=c))
    out.append(lambda W: swt.swt_spec(W, 2, -1))
    out.append(lambda W: matrix.wavedec_spec(W, 'zero'))
    for method in ('qr', 'gramschmidt'):
        out.append(lambda W, method=method: matrix.waverec_spec(W, method=method))
    for d in (2, 3):
        out.append(lambda W, d=d: matrixn.wavedecn_spec(W, d, 'zero'))
        out.append(lambda W, d=d: matrixn.waverecn_spec(W, d))
    for d, n in ((1, 11), (2, 13)):
        add_all(packets.reject_specs, d, n=n)
        for m in MODES[:1] + ('boundary',):
            for c in packets.CHARS[d]:
                out.append(lambda W, d=d, m=m, c=c: packets.reconstruct_spec(W, d, d + 1, list(range(-d, 0)), m, missing=c))
    return out


def packet_axes(d, rank, full):
    vs = axes_variants(d, rank, full)
    return vs if full or d == 1 else vs[::max(1, len(vs) // 6)]


def packet_trees(full, modes=MODES + ('boundary',), wavs=('obj', 'name')):
    """reading, construction and reconstruction of trees"""
    out = []
    for d in (1, 2):
        for rank in range(d, d + 3):
            for ax in packet_axes(d, rank, full):
                if not full and rank > d + 1 and ax != (0, 2)[:d]:
                    continue
                for m in modes:
                    for kw in [{}] if d == 1 else [dict(separable=False), dict(separable=True)]:
                        for kw in [kw] if m != 'boundary' else [dict(kw, method=x) for x in (('qr', 'gramschmidt') if full or ax == tuple(range(-d, 0)) else ('qr',))]:
                            for wav in wavs if ax == tuple(range(-d, 0)) else wavs[:1]:
                                k = dict(kw, wav=wav)
                                for c in packets.CHARS[d]:
                                    out.append(lambda W, a=(d, rank, ax, m, c), k=k: packets.getitem_spec(W, *a, **k))
                                out.append(lambda W, a=(d, rank, ax, m), k=k: packets.reconstruct_spec(W, *a, **k))
    return out


def packet_init(full, levels=(True, False)):
    out = []
    for d in (1, 2):
        for rank in range(d, d + 3):
            for ax in packet_axes(d, rank, full):
                for m in ('zero', 'boundary'):
                    for how in ('constructor', 'transform', 'again'):
                        for lv in levels:
                            for wav in ('obj', 'name') if ax == tuple(range(-d, 0)) else ('obj',):
                                out.append(lambda W, a=(d, rank, ax, m, lv, how, wav): packets.init_spec(W, *a))
    return out


def packet_some(modes=('zero', 'boundary'), axes=lambda d: [tuple(range(-d, 0))], **kw):
    out = []
    for d in (1, 2):
        for ax in axes(d):
            for m in modes:
                a = (d, d + 1, ax, m)
                k = dict(kw, separable=m == 'boundary') if d == 2 else kw
                for c in packets.CHARS[d]:
                    out.append(lambda W, a=a, c=c, k=k: packets.getitem_spec(W, *a, c, **k))
                out.append(lambda W, a=a, k=k: packets.reconstruct_spec(W, *a, **k))
                out.append(lambda W, a=a, k=k: packets.initialize_spec(W, *a, **k))
                for how in ('constructor', 'transform', 'again'):
                    out.append(lambda W, a=a, k=k, how=how: packets.init_spec(W, *a, True, how, **k))
    return out


def C20(t):
    full = t == 'thorough'
    out = packet_trees(full) + packet_init(full, (True,))
    for d in (1, 2):
        for m in MODES + ('boundary',):
            out.append(lambda W, d=d, m=m: packets.getitem_spec(W, d, d + 1, list(range(-d, 0)), m, ''))
            out.append(lambda W, d=d, m=m: packets.initialize_spec(W, d, d + 1, list(range(-d, 0)), m))
    return out


def C21(t):
    return [lambda W, o=o: packets.order_spec(W, 1, o) for o in (None, 'freq', 'natural')] + [lambda W: packets.order_spec(W, 2, 'natural')] + [lambda W, h=h: packets.grid_spec(W, h) for h in ('get_level', 'freq', 'direct')]


PLAN = {
    'C20': C20,
    'C21': C21,
    'C23': C23,
    'C15': C15,
    'C14': C14,
    'C13': C13,
    'C22': C22,
    'C26': C26,
    'C27': C27,
    'C11': C11,
    'C12': C12,
    'C01': C01,
    'C02': lambda t: dec('conv', 1) + symmetric(),
    'C03': lambda t: rec('conv', 1),
    'C04': lambda t: dec('conv', 2) + symmetric(),
    'C05': lambda t: rec('conv', 2),
    'C06': lambda t: dec('conv', 3) + symmetric(),
    'C07': lambda t: rec('conv', 3),
    'C08': lambda t: dec('sep', 2) + dec('sep', 3) + symmetric(),
    'C09': lambda t: rec('sep', 2) + rec('sep', 3),
    'C10': C10,
    'C24': lambda t: cwt.specs(t == 'thorough'),
    'C25': C25,
    'C16': C16,
    'C17': lambda t: matrix_nd(2) + nonseparable(),
    'C18': lambda t: matrix_nd(3),
    'C19': C19,
}

MIRROR = [('Mirror.lean', t, 'theory of the mirror index used by the folding rules') for t in
          ('symidx_range', 'symidx_id', 'symidx_period', 'symidx_neg', 'symidx_reflect', 'symidx_nested', 'symidx_values')]


def PR(t):
    return [('PR.lean', t, 'the synthesis contract of one level undoes the analysis contract, for every extension and perfect-reconstruction bank'),
            ('PR.lean', 'sizes', 'analysed sizes meet the precondition of the synthesis contract; at most one surplus sample'),
            ('PR.lean', 'levels', 'one level inverted at every level inverts all levels')]


PERIODIC = [('Periodic.lean', t, 'theory of the periodic index used by the folding rules') for t in
            ('pmod_range', 'pmod_id', 'pmod_period', 'pmod_nested', 'pmod_near')]
LOSS = [('Loss.lean', t, w) for t, w in (('loss_zero', 'a squared distance is zero exactly when nothing differs'), ('loss_nonneg', 'losses are not negative'),
        ('losses_zero', 'a sum of losses is zero exactly when each is'), ('product_coeff', 'the verified sums are the coefficients of the product polynomial'),
        ('alternate', 'H(-z) has alternating taps'), ('signs', 'the mask of the code is the alternating sign up to one common sign'))]
ORTHO = [('Boundary.lean', t, w) for t, w in (
    ('full_rows', 'a row with all its taps inside is orthonormal to every row, truncated or not'),
    ('orthogonal', 'contract of orthogonalize on the remaining rows: the matrix is orthogonal on both sides'))]
BASIS = [('Orth.lean', t, w) for t, w in (
    ('gram_schmidt', 'the verified contract of Gram-Schmidt gives an orthonormal basis of the span of linearly independent rows'),
    ('qr_basis', 'the contract of torch.linalg.qr gives an orthonormal basis of the span of linearly independent rows'),
    ('replaced_rows', 'the verified result of either method is the contract of orthogonalize that the boundary matrices use'))]
INVERT = [('Boundary.lean', t, w) for t, w in (
    ('one_level', 'the synthesis contract of one level undoes the analysis contract'),
    ('halves', 'splitting into halves and stacking them again'),
    ('half_sizes', 'analysed sizes meet the precondition of the synthesis contract; at most one surplus sample'),
    ('all_levels', 'one level inverted at every level inverts all levels'))]
OPERATORS = [('Boundary.lean', t, w) for t, w in (
    ('stacked', 'a level matrix extended by the identity transforms the head of the stacked coefficients'),
    ('fwt_operator', 'the operator applied to the data is the stacked coefficient vector'),
    ('ifwt_operator', 'the synthesis operator inverts the analysis operator'))]
def invert_nd(*one):
    return [('Boundary.lean', t, w) for t, w in [(o, 'the synthesis contract of one level undoes the analysis contract') for o in one] + [
        ('halves_nd', 'splitting into halves along an axis and stacking them again'),
        ('half_sizes', 'analysed sizes meet the precondition of the synthesis contract; at most one surplus sample per axis'),
        ('all_levels_nd', 'one level inverted at every level inverts all levels')]]


NOPAD = [('Boundary.lean', 'pad_none', 'fact about the sizes of the synthesis: no odd length means no dropped sample')]
TREE = [('Packets.lean', 'tree', 'reconstruction from unmodified leaves gives every node back, when one level is inverted (C03, C05, C09, C16, C17)')]
GRAY = [('Packets.lean', t, w) for t, w in (('gray_band', 'the t-th listed word is the node of the t-th frequency band'), ('gray_length', 'every listed word has the length of the level'),
        ('gray_all', 'every word of the level is listed'), ('gray_inj', 'no word is listed twice'),
        ('grid_all', '2-D: every word of the level stands in the grid'), ('grid_inj', '2-D: at one place only'))]
LEMMAS = {'C20': TREE, 'C21': GRAY, 'C17': MIRROR + PERIODIC + BASIS[2:] + ORTHO + invert_nd('one_level', 'one_level2') + NOPAD + [
          ('Boundary.lean', 'full_rows2', 'the same for the rows of the two-dimensional matrix')], 'C18': MIRROR + PERIODIC + BASIS[2:] + ORTHO + invert_nd('one_level3') + NOPAD,
          'C15': BASIS, 'C16': MIRROR + PERIODIC + BASIS[2:] + ORTHO + INVERT + OPERATORS + NOPAD, 'C19': MIRROR + PERIODIC + NOPAD, 'C25': LOSS, 'C11': PERIODIC,
          'C12': PERIODIC + [('Periodic.lean', 'swt_pr', 'the periodic synthesis contract of one level undoes the periodic analysis contract, for every PR bank, length and dilation')],
          'C01': MIRROR, 'C02': MIRROR, 'C04': MIRROR, 'C06': MIRROR, 'C08': MIRROR, 'C10': MIRROR + PERIODIC, 'C26': MIRROR + PERIODIC, 'C22': MIRROR + PERIODIC, 'C23': MIRROR + PERIODIC + NOPAD,
          'C03': PR('pr1'), 'C05': PR('pr2'), 'C07': PR('pr3'), 'C09': PR('pr2') + PR('pr3')[:1]}
TRUSTED = [
    'z3 4.x (SMT back end) and CPython executing the verifier',
    'ptv/transform.py: mechanical translation of /repo source (AST) into the verified program; it drops annotations, docstrings, overload stubs and '
    'the jit/typing decorators, nothing else',
    'contracts assumed for torch, numpy, pywt, more_itertools (ptv/fakes.py, ptv/tensor.py), compared with the real libraries by ptv/selftest.py',
]
ASSUME = [
    'machine floating point is treated as exact real arithmetic; Python ints are mathematical integers',
    'filters are arbitrary real sequences sharing one even length L = 2h >= 2',
    'one CPU device (device equality is tracked symbolically, kernels are not)',
    'ranks, axes, modes, dtypes and wavelet argument kinds are enumerated as listed under configurations; sizes, levels, filter length, filter taps and data are universally quantified',
]
INFO = {
    'C17': dict(bounded=['fully assembled 2-D operator matrices of several levels (operator properties)']),
    'C19': dict(bounded=['histories of MatrixWavedec2, MatrixWaverec2, MatrixWavedec3, MatrixWaverec3 objects']),
    'C20': dict(assume=['single-level transforms and boundary-wavelet objects are entered by their contracts (proved under C02-C07, C16, C17); data and nodes lie in their domain',
                        'known finding: node names of separable boundary trees']),
    'C21': dict(trusted=['itertools.product: all tuples once, lexicographic']),
    'C23': dict(bounded=['continuous_transform.cwt']),
    'C24': dict(trusted=['DFT convolution theorem: ifft(fft(a, n) * fft(b, n)) is the full convolution if n >= its length', '2**ceil(log2(n)) >= n for n >= 1',
                         'arange/floor: positions floor(m / den), m < ceil(end), non-decreasing; boolean selection of a non-decreasing sequence by an upper bound is a prefix',
                         'wavefun of pywt and of the differentiable wavelets (samples on a grid), pywt.scale2frequency'],
                assume=['every scale is positive and large enough for two samples of the wavelet (smaller ones raise, checked at run time)', 'complex numbers form a commutative ring; conj and real part are opaque']),
}
