"""C20, C21, C27: wavelet packet trees.

A node key is a word p + suffix where p is an arbitrary word of symbolic length.  The contract of reading a node:
every stored value is T(key), where T('') is the data and T(p+c) is the band c of the single-level transform of T(p)
with the wavelet, mode, axes of the tree; reading keeps that (so the order of the reads does not matter) and returns
T(key).  Reconstruction: after the level l is done every node p with l <= len(p) < maxlevel holds
R(p) = crop(synthesis of the bands R(p+c)), cropped to the size of the node except at the root."""
import inspect

import fakes
import fseq

from specs.convn import *  # noqa: F401,F403
from core import Seg, El, TList

CHARS = {1: 'ad', 2: 'ahvd'}
FS = {'h': 'da', 'v': 'ad', 'd': 'dd'}


# ------------------------------------------------------------------ symbolic keys
class Base:
    """an arbitrary word of length n"""

    def __init__(self, name, n):
        self.name, self.n = name, n


class SKey(str):
    """base + suffix"""

    def __new__(cls, base, suffix=''):
        s = str.__new__(cls, f'<{base.name}>{suffix}')
        s.base, s.suffix = base, suffix
        return s

    def symlen(self):
        return mk(add(self.base.n, K(len(self.suffix))))

    def __add__(self, o):
        if type(o) is not str:
            raise Unsupported('sum of symbolic keys')
        return SKey(self.base, self.suffix + o)

    def __getitem__(self, k):
        n = len(self.suffix)
        if isinstance(k, int) and -n <= k < 0:
            return self.suffix[k]
        if isinstance(k, slice) and k.step is None and k.start in (None, 0) and isinstance(k.stop, int) and -n <= k.stop < 0:
            return SKey(self.base, self.suffix[:k.stop])
        if isinstance(k, slice) and k.step is None and k.stop is None and isinstance(k.start, int) and -n <= k.start < 0:
            return self.suffix[k.start:]
        raise Unsupported('character of an arbitrary word')

    def __eq__(self, o):
        if isinstance(o, SKey):
            if o.base is not self.base:
                raise Unsupported('comparison of arbitrary words')
            return o.suffix == self.suffix
        if o == '':
            return False if self.suffix else core.mkb(eq(self.base.n, ZERO))
        if not isinstance(o, str):
            return False
        raise Unsupported('comparison of an arbitrary word')

    def __ne__(self, o):
        return vc.not_(self == o)

    def __hash__(self):
        return hash((id(self.base), self.suffix))

    def __bool__(self):
        return bool(self.suffix) or bool(core.mkb(bnot(eq(self.base.n, ZERO))))


def _forbid(nm):
    def f(self, *a, **k):
        raise Unsupported(f'{nm} of an arbitrary word')
    return f


for _nm in [m for m in dir(str) if not m.startswith('_')] + ['__iter__', '__contains__', '__mul__', '__rmul__', '__lt__', '__le__', '__gt__', '__ge__', '__mod__', '__len__']:
    setattr(SKey, _nm, _forbid(_nm))


# ------------------------------------------------------------------ symbolic dictionaries
def facts():
    return core.C.__dict__.setdefault('packet_facts', {})


class Keys:
    """A dictionary with unknown keys."""

    def _facts(self):
        return facts().setdefault(id(self), ([], [], self))

    def _known(self, ks, k):
        return any(same_key(k, x) for x in ks)

    def __contains__(self, k):
        k = self._key(k)
        yes, no, _ = self._facts()
        if self._known(yes, k):
            return True
        if self._known(no, k):
            return False
        r = self._decide(k)
        (yes if r else no).append(k)
        return r

    def _key(self, k):
        return k

    def _decide(self, k):
        return core.C.choose(2, 'membership') == 0

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self._value(self._key(k))

    def __setitem__(self, k, v):
        k = self._key(k)
        self._write(k, v)
        yes, no, _ = self._facts()
        no[:] = [x for x in no if not same_key(x, k)]
        if not self._known(yes, k):
            yes.append(k)

    def keys(self):
        return self

    def get(self, k, default=None):
        return self[k] if k in self else default

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    def symlen(self):
        raise Unsupported('number of the keys')

    __len__ = __iter__ = items = values = pop = popitem = update = clear = __delitem__ = copy = lambda self, *a, **k: _forbid('an operation on all keys')(self)


def same_key(a, b):
    if isinstance(a, SKey) or isinstance(b, SKey):
        return isinstance(a, SKey) and isinstance(b, SKey) and a.base is b.base and a.suffix == b.suffix
    return a is b or vc.values_equal(a, b)[0]


class Tree(Keys):
    """The stored nodes."""

    def __init__(self, w):
        facts()['tree'] = w
        self.lvl = None  # reconstruction: the nodes p with lvl <= len(p) hold R(p)

    def _key(self, k):
        w = facts()['tree']
        if isinstance(k, SKey):
            return k
        if k == '' and w.base is not None and core.C.proved(eq(w.base.n, ZERO)):
            return SKey(w.base)
        if k == '':
            return k
        raise Unsupported('a constant key')

    def _decide(self, k):
        w = facts()['tree']
        if k == '':
            return True
        if w.cur is not None:  # reconstruction: every node is there
            if isinstance(k, SKey) and k.base is w.cur and len(k.suffix) <= 1 and (not k.suffix or k.suffix in w.chars):
                if k.suffix and w.missing == k.suffix and core.C.decide(eq(add(k.base.n, ONE), w.M)):
                    return False
                return True
            raise Unsupported('membership of another node')
        if isinstance(k, SKey) and core.C.proved(lt(w.M, top(k.symlen()))):
            return False  # a reachable tree holds no deeper node
        r = core.C.choose(2, 'membership') == 0
        if r and isinstance(k, SKey) and (k.suffix[-1:] or w.chars[0]) not in w.chars:
            raise core.Infeasible()  # only words over the alphabet are stored
        return r

    def _value(self, k):
        w = facts()['tree']
        if k in w.written:
            return w.written[k]
        if w.cur is None:
            return w.T(k)
        if not isinstance(k, SKey) or k.base is not w.cur:
            raise Unsupported('another node during reconstruction')
        if not k.suffix:
            return w.T(k)
        if not core.C.proved(le(top(self.lvl), add(k.base.n, K(len(k.suffix))))):
            raise Unsupported('a node that is not reconstructed yet')
        return w.R(k)

    def _write(self, k, v):
        w = facts()['tree']
        if w.cur is not None:
            if not isinstance(k, SKey) or k.base is not w.cur or k.suffix or k in w.written:
                raise Unsupported('another node is written during reconstruction')
            w.written[k] = v
            return
        expect_type('a stored node is a tensor', v, SymTensor)
        verify.oblige_eq('a stored node p + c is band c of the transform of node p', v, w.T(k))


Tree.__module__ = 'sym.ghost'


class Call:
    """A transform object of the cache, built with the parameters of the tree."""

    def __init__(self, cache):
        self.cache = cache

    def __call__(self, x):
        w = facts()['tree']
        self.cache.kind('analysis' if isinstance(x, SymTensor) else 'synthesis')
        return w.analysed(x, 'matrix') if isinstance(x, SymTensor) else w.synthesised(x, 'matrix')


class Cache(Keys):
    """The transforms kept by size."""

    def __init__(self, name):
        self.nm = name

    def kind(self, k):
        s = core.C.store.setdefault('cache kinds', {})
        if s.setdefault(self.nm, k) != k:
            raise Unsupported('one cache holds analysis and synthesis transforms')

    def _value(self, k):
        made = facts().setdefault(('made', id(self)), [])
        for q, v in made:
            if same_key(q, k):
                return v
        return Call(self)

    def _write(self, k, v):
        w = facts()['tree']
        kind = facts().get(('obj', id(v)))
        if kind is None:
            raise Unsupported('another object is cached')
        self.kind(kind)
        facts().setdefault(('made', id(self)), []).append((k, v))


# ------------------------------------------------------------------ the tree under specification
class World_:
    def __init__(self, W, d, rank, axes, mode, dtype=F64, method='qr', separable=False, missing=None, device=None):
        self.W, self.d, self.rank, self.axes, self.mode, self.method, self.separable = W, d, rank, axes, mode, method, separable
        self.chars = CHARS[d]
        self.dtype = dtype
        self.lay = Layout(rank, [a % rank for a in axes], device)
        self.w = begin(self.lay, dtype=dtype)
        self.base = self.cur = None
        self.missing = missing
        self.written = {}
        C = core.C
        self.M = V('M')
        C.assume(ge0(self.M))
        L = self.w.L
        self.N = []
        for q in range(d):
            n0 = V(f'N{q}')
            C.assume(le(ONE, n0))
            if mode == 'boundary':
                step = lambda n: ir.div(add(n, ONE), K(2))  # noqa: E731
            else:
                step = lambda n: ir.div(sub(add(n, L), ONE), K(2))  # noqa: E731
            dom = lambda p, m: [bor(bnot(ge0(p)), le(ONE, m))]  # noqa: E731
            self.N.append(size_seq(f'size{q}', n0, step, dom))
            self.step = step
        C.store['contracts'] = dict(vc.CONTRACTS)
        self.install()

    # tensors
    def sizes(self, n):
        return [f(n) for f in self.N]

    def node(self, tag, k):
        if not isinstance(k, SKey):
            return self.lay.tensor(self.sizes(ZERO), lambda b, t: e_atom('X', b + t), self.dtype, name='data')
        n = add(k.base.n, K(len(k.suffix)))
        return self.lay.tensor(self.sizes(n), lambda b, t: e_atom(f'{tag}{k}', b + t), self.dtype, name=f'node{tag}{k}')

    def T(self, k):
        return self.node('T', k)

    def R(self, k):
        return self.node('R', k)

    def S(self, base):
        """synthesis of the bands below base"""
        m = self.sizes(add(base.n, ONE))
        L = self.w.L
        out = [scale(x, 2) if self.mode == 'boundary' else add(sub(scale(x, 2), L), K(2)) for x in m]
        return self.lay.tensor(out, lambda b, t: e_atom(f'S{base.name}', b + t), self.dtype, name='synthesis')

    # contracts of the single-level transforms
    def params(self, got, synth, kind):
        """the call passes the parameters of the tree"""
        C = core.C
        w = got.pop('wavelet')
        if getattr(w, 'wav', w) is not self.w:
            raise Unsupported('another wavelet')
        want = {}
        ax = got.pop('axis', None)
        if ax is None:
            ax = got.pop('axes', None)
        if ax is None:
            ax = -1 if self.d == 1 else (-2, -1)
        ax = [ax] if self.d == 1 else list(fakes.seq(ax))
        if any(not isinstance(a, int) for a in ax):
            raise Unsupported('symbolic axes')
        want['axes'] = [a % self.rank for a in ax] == [a % self.rank for a in self.axes]
        if not synth:
            lv = got.pop('level', None)
            if lv != 1:
                raise Unsupported('another number of levels')
            if kind != 'matrix':
                m = got.pop('mode', None)
                if not isinstance(m, str):
                    raise Unsupported('mode')
                want['mode'] = m == self.mode
        if kind == 'matrix':
            om = got.pop('orthogonalization', None)
            if not isinstance(om, str):
                raise Unsupported('orthogonalisation')
            want['orthogonalisation'] = om == self.method
            if self.d == 2:
                want['separability'] = bool(got.pop('separable', True)) == self.separable
            om = got.pop('odd_coeff_padding_mode', 'zero')
            if om != 'zero':
                raise Unsupported('another padding of odd sizes')
        if any(v is not None for v in got.values()):
            raise Unsupported(f'further arguments {sorted(got)}')
        for k, ok in want.items():
            st = 'unsat' if ok else C.check(TRUE)
            C.record(f'the {"synthesis" if synth else "single-level transform"} uses the {k} of the tree', 'discharged' if ok else 'refuted' if st == 'sat' else 'unknown',
                     backend='z3', time=0, model=None if ok else C.model_dict())

    def analysed(self, x, kind):
        if self.base is None or not isinstance(x, SymTensor):
            raise Unsupported('transform of another value')
        p = SKey(self.base)
        t = self.T(p)
        if not vc.tensors_equal(x, t)[0]:
            raise Unsupported('transform of another tensor')
        bands = {c: self.T(p + c) for c in self.chars}
        if self.d == 1:
            return TList.of([El(bands['a']), El(bands['d'])])
        if kind == 'sep':
            return (bands['a'], {FS[c]: bands[c] for c in 'vhd'})
        cls = self.W.load('constants').WaveletDetailTuple2d
        return (bands['a'], cls(bands['h'], bands['v'], bands['d']))

    def synthesised(self, c, kind):
        if self.cur is None:
            raise Unsupported('synthesis outside of the reconstruction')
        c = fakes.seq(c)
        if len(c) != 2:
            raise Unsupported('synthesis of another number of levels')
        p = SKey(self.cur)
        if self.d == 1:
            bands = dict(zip('ad', c))
        elif kind == 'sep':
            if not isinstance(c[1], dict) or set(c[1]) != set(FS.values()):
                raise Unsupported('detail dictionary')
            bands = dict(a=c[0], **{k: c[1][v] for k, v in FS.items()})
        else:
            if isinstance(c[1], dict):
                raise Unsupported('detail tuple')
            bands = dict(zip('ahvd', [c[0]] + list(fakes.seq(c[1]))))
        for k, v in bands.items():
            if not isinstance(v, SymTensor):
                raise Unsupported('synthesis of another value')
            if not verify.oblige_eq(f'the synthesis of node p gets the current node p + {k} as band {k}', v, self.R(p + k)):
                raise core.PathEnd()
        return self.S(self.cur)

    def install(self):
        con = core.C.store['contracts']
        d = self.d
        mods = {'conv': ['conv_transform', 'conv_transform_2'][d - 1]}
        names = [(f'{mods["conv"]}.wavedec{"" if d == 1 else 2}', f'{mods["conv"]}.waverec{"" if d == 1 else 2}', 'conv')]
        if d == 2:
            names.append(('separable_conv_transform.fswavedec2', 'separable_conv_transform.fswaverec2', 'sep'))

        def bound(f, a, k):
            b = inspect.signature(f).bind(*a, **k)
            b.apply_defaults()
            return dict(b.arguments)

        def right(kind):
            want = 'matrix' if self.mode == 'boundary' else 'sep' if self.separable else 'conv'
            if kind != want:
                raise Unsupported('another family of transforms')

        def ana(kind):
            def con_(f, a, k):
                got = bound(f, a, k)
                x = got.pop('data')
                right(kind)
                self.params(got, False, kind)
                return self.analysed(x, kind)
            return con_

        def syn(kind):
            def con_(f, a, k):
                got = bound(f, a, k)
                x = got.pop('coeffs')
                right(kind)
                self.params(got, True, kind)
                return self.synthesised(x, kind)
            return con_
        for a, s, kind in names:
            con[a] = ana(kind)
            con[s] = syn(kind)
        m = 'matmul_transform' if d == 1 else 'matmul_transform_2'
        for cls, synth in ((f'MatrixWavedec{"" if d == 1 else 2}', False), (f'MatrixWaverec{"" if d == 1 else 2}', True)):
            def init(f, a, k, synth=synth):
                got = bound(f, a, k)
                me = got.pop('self')
                right('matrix')
                self.params(got, synth, 'matrix')
                facts()[('obj', id(me))] = 'synthesis' if synth else 'analysis'
                facts()[('keep', id(me))] = me
                return None

            def call(f, a, k, synth=synth):
                got = bound(f, a, k)
                me = got.pop('self')
                if facts().get(('obj', id(me))) != ('synthesis' if synth else 'analysis'):
                    raise Unsupported('transform object')
                x = got.pop(next(iter(got)))
                if any(v is not None for v in got.values()):
                    raise Unsupported('further arguments')
                return self.synthesised(x, 'matrix') if synth else self.analysed(x, 'matrix')
            con[f'{m}.{cls}.__init__'] = init
            con[f'{m}.{cls}.__call__'] = call

    # the object
    def cls(self):
        m = self.W.load('packets')
        return m.WaveletPacket if self.d == 1 else m.WaveletPacket2D

    def nm(self):
        return f'packets.{self.cls().__name__}'

    def make(self, data, maxlevel, wav='obj'):
        k = {'axis': self.axes[0]} if self.d == 1 else {'axes': tuple(self.axes), 'separable': self.separable}
        if maxlevel is not None:
            k['maxlevel'] = maxlevel
        return verify.call('the constructor', self.cls(), data, wavelet_arg(self.w, wav, self.dtype), mode=self.mode, orthogonalization=self.method, **k)

    def data(self):
        return self.T('')

    def reachable(self, wav='obj'):
        """An arbitrary tree that satisfies the contract of the stored nodes."""
        t = self.make(self.data(), mk(self.M), wav)
        t.data = Tree(self)
        for k, v in list(vars(t).items()):
            if k != 'data' and type(v) is dict:
                if v:
                    raise Unsupported('initial content of a dictionary')
                setattr(t, k, Cache(k))
        self.tree = t
        return t

    def recursion(self):
        """reading a shorter key, by contract"""
        q = f'{self.nm()}.__getitem__'
        C = core.C

        def con(f, a, k):
            me, key = bound_(f, a, k)
            if me is not self.tree:
                raise Unsupported('another tree')
            n = ZERO if key == '' and not isinstance(key, SKey) else top(key.symlen())
            C.oblige('a nested read is of a shorter key (termination)', lt(n, self.outer))
            C.oblige('a nested read is within the maximal level', le(n, self.M))
            for fct in facts().values():
                if isinstance(fct, tuple) and isinstance(fct[1], list):
                    fct[1].clear()
            return self.T(self.tree.data._key(key))
        C.store['contracts'][q] = con
        C.__dict__.setdefault('bodies', set()).add(q)


def bound_(f, a, k):
    b = inspect.signature(f).bind(*a, **k)
    return list(b.arguments.values())


def expect_type(name, v, t):
    core.C.record(name, 'discharged' if isinstance(v, t) else 'refuted' if core.C.check(TRUE) == 'sat' else 'unknown', backend='-', time=0)
    if not isinstance(v, t):
        raise core.PathEnd()


def cfg(d, rank, axes, mode, **k):
    return f'{d}-D,rank={rank},axes={axes},mode={mode}' + ''.join(f',{a}={b}' for a, b in k.items())


def getitem_spec(W, d, rank, axes, mode, c, wav='obj', **kw):
    """read of the node p + c; c = '': the root"""
    def body():
        C = core.C
        w = World_(W, d, rank, axes, mode, **kw)
        t = w.reachable(wav)
        if c:
            n = V('len')
            C.assume(ge0(n))
            w.base = Base('p', n)
            key = SKey(w.base, c)
            w.outer = add(n, ONE)
            w.recursion()
            C.assume(lt(n, w.M))
        else:
            key = ''
        r = verify.call('reading a node', lambda: t[key])
        expect_type('a node is a tensor', r, SymTensor)
        verify.oblige_eq(f'the node p + {c!r} is what the path determines', r, w.T(key))
        C.record('the tree still holds the node dictionary', 'discharged' if isinstance(t.data, Tree) else 'unknown', backend='-', time=0)
        same = core.isint(t.maxlevel) and C.proved(eq(top(t.maxlevel), w.M))
        C.record('the maximal level is kept', 'discharged' if same else 'unknown', backend='z3', time=0)
    return f'packets[{cfg(d, rank, axes, mode, **kw)}] node p+{c!r}', body


def init_spec(W, d, rank, axes, mode, level, how, wav='obj', **kw):
    """construction and transform"""
    def body():
        C = core.C
        w = World_(W, d, rank, axes, mode, **kw)
        data = w.data()
        data.storage.frozen = 'data'
        if how == 'constructor':
            t = w.make(data, mk(w.M) if level else None, wav)
        else:
            if how == 'again':
                t = w.reachable(wav)
            else:
                t = w.make(None, None, wav)
            r = verify.call('transform', lambda: t.transform(data, *([mk(w.M)] if level else [])))
            C.record('transform returns the tree', 'discharged' if r is t else 'unknown', backend='-', time=0)
        D = t.data
        ok = type(D) is dict and list(D) == [''] and isinstance(D[''], SymTensor)
        C.record('only the root is stored', 'discharged' if ok else 'unknown', backend='-', time=0)
        if not ok:
            raise core.PathEnd()
        verify.oblige_eq('the root is the data', D[''], w.data())
        n = ite(le(w.N[0](ZERO), w.N[-1](ZERO)), w.N[0](ZERO), w.N[-1](ZERO))
        want = w.M if level else fakes.maxlevel(n, w.w.L)
        if not core.isint(t.maxlevel):
            C.record('the maximal level is an integer', 'unknown', backend='-', time=0)
            raise core.PathEnd()
        C.oblige('the maximal level is the given one' if level else 'the maximal level is the default one', eq(top(t.maxlevel), want))
    return f'packets[{cfg(d, rank, axes, mode, **kw)}] {how}, maxlevel {"given" if level else "by default"}', body


def initialize_spec(W, d, rank, axes, mode, **kw):
    """reading any number of nodes keeps the contract of the stored nodes"""
    def body():
        C = core.C
        w = World_(W, d, rank, axes, mode, **kw)
        t = w.reachable()
        n, count = V('len'), V('count')
        C.assume(band(ge0(n), lt(n, w.M), ge0(count)))
        w.base = Base('p', n)
        c = w.chars[C.choose(len(w.chars), 'last character')]
        w.outer = add(n, ONE)
        read = []
        w.recursion()

        def con(f, a, k, inner=C.store['contracts'][f'{w.nm()}.__getitem__']):
            key = bound_(f, a, k)[1]
            read.append(key)
            return w.T(w.tree.data._key(key))
        C.store['contracts'][f'{w.nm()}.__getitem__'] = con
        C.bodies.discard(f'{w.nm()}.__getitem__')
        keys = TList.of([Seg(count, lambda i: SKey(w.base, c))])
        keys.frozen = 'keys'
        verify.call('initialize', lambda: t.initialize(keys))
        C.record('the tree still holds the node dictionary', 'discharged' if isinstance(t.data, Tree) else 'unknown', backend='-', time=0)
    return f'packets[{cfg(d, rank, axes, mode, **kw)}] initialize', body


class Nodes:
    """Contract of the enumerations of a level: every word of the length once; the invariant of the loop of the reconstruction."""
    generic_loop = True

    def __init__(self, w, level):
        self.w, self.level = w, level

    def begin(self):
        w = self.w
        D = w.tree.data
        if not isinstance(D, Tree) or not core.isint(D.lvl):
            raise Unsupported('enumeration of a level')
        core.C.oblige('the children of the level are reconstructed', eq(top(D.lvl), add(self.level, ONE)))
        core.C.oblige('only inner levels are reconstructed', band(ge0(self.level), lt(self.level, w.M)))

    def step(self):
        w = self.w
        w.cur = Base('p', self.level)
        w.base = w.cur
        w.written = {}
        for f in w.N:  # the sizes of the children
            core.C.assume(eq(f(add(self.level, ONE)), w.step(f(self.level))))
        return SKey(w.cur)

    def check(self):
        w, C = self.w, core.C
        p = SKey(w.cur)
        if w.missing and C.proved(eq(add(self.level, ONE), w.M)):
            C.record('a missing leaf raises a KeyError', 'refuted', backend='path enumeration', time=0, model=C.model_dict())
            return
        if list(w.written) != [p]:
            C.record('the node p is written', 'unknown' if w.written else 'refuted', backend='-', time=0)
            return
        v = w.written[p]
        expect_type('a reconstructed node is a tensor', v, SymTensor)
        root = C.decide(eq(self.level, ZERO))
        want = w.S(w.cur)
        if not root:
            for q, a in enumerate(w.lay.axes):
                want = T.getitem(want, tuple([slice(None)] * a + [slice(None, mk(w.N[q](self.level)))])) if hasattr(T, 'getitem') else want[tuple([slice(None)] * a + [slice(None, mk(w.N[q](self.level)))])]
        verify.oblige_eq('the root is the synthesis of its bands' if root else 'an inner node is the synthesis of its bands, cropped to its size', v, want)

    def end(self):
        w, C = self.w, core.C
        if w.missing and C.decide(eq(add(self.level, ONE), w.M)):
            raise core.Infeasible()  # some node of this level lacks a leaf
        D = w.tree.data
        D.lvl = mk(self.level)
        w.cur = w.base = None
        w.written = {}


def reconstruct_spec(W, d, rank, axes, mode, level='given', wav='obj', **kw):
    def body():
        C = core.C
        w = World_(W, d, rank, axes, mode, **kw)
        t = w.reachable(wav)
        if level is None:  # a tree filled by hand
            t.maxlevel = None
            n = ite(le(w.N[0](ZERO), w.N[-1](ZERO)), w.N[0](ZERO), w.N[-1](ZERO))
            C.assume(eq(w.M, fakes.maxlevel(n, w.w.L)))
        t.data.lvl = mk(w.M)
        if w.missing:
            C.assume(le(ONE, w.M))
        con = C.store['contracts']

        def nodes(f, a, k):
            b = inspect.signature(f).bind(*a, **k)
            b.apply_defaults()
            o = b.arguments.get('order', 'natural')
            if o not in ('natural', 'freq') or d == 2 and o != 'natural':
                raise Unsupported('order of the nodes')
            if any(q not in ('level', 'order') for q in b.arguments):
                raise Unsupported('enumeration of other words')
            return Nodes(w, top(b.arguments['level']))
        for f in ('get_level', '_get_graycode_order', 'get_natural_order'):
            if hasattr(w.cls(), f):
                con[f'{w.nm()}.{f}'] = nodes
        if w.missing:
            verify.raises('reconstruct without a leaf', t.reconstruct, KeyError)
            return
        r = verify.call('reconstruct', t.reconstruct)
        C.record('reconstruct returns the tree', 'discharged' if r is t and isinstance(t.data, Tree) else 'unknown', backend='-', time=0)
        C.oblige('every level is reconstructed', eq(top(t.data.lvl), ZERO))
        same = core.isint(t.maxlevel) and C.proved(eq(top(t.maxlevel), w.M))
        C.record('the maximal level is kept', 'discharged' if same else 'unknown', backend='z3', time=0)
    return f'packets[{cfg(d, rank, axes, mode, **kw)}] reconstruct' + ('' if level else ', maxlevel by default'), body


# ------------------------------------------------------------------ C21: the orders of a level
class Gray(str):
    """prefix + G(l, t), where G(0, 0) is empty and G(l+1, t) = x G(l, t) for t < 2^l, y G(l, 2^(l+1) - 1 - t) otherwise (lean/Packets.lean: gray)"""

    def __new__(cls, xy, l, t, prefix=''):
        s = str.__new__(cls, '<gray>')
        s.xy, s.l, s.t, s.prefix = xy, l, t, prefix
        return s

    def __radd__(self, o):
        if type(o) is not str:
            raise Unsupported('sum of symbolic words')
        return Gray(self.xy, self.l, self.t, o + self.prefix)

    def symlen(self):
        return mk(add(self.l, K(len(self.prefix))))

    def letters(self):
        return set(self.xy) | set(self.prefix)

    def word_parts(self):
        return (self.xy, self.l, self.t, self.prefix)

    def deep_subst(self, s):
        return Gray(self.xy, ir.subst(self.l, s), ir.subst(self.t, s), self.prefix)


fseq.forbid(Gray)


def word_is(v, xy, l, t):
    """the value v is the word G(l, t), for 0 <= t < 2^l"""
    C = core.C
    if type(v) is str:
        p, n, q = v, ZERO, ZERO
    elif isinstance(v, Gray) and v.xy == xy:
        p, n, q = v.prefix, v.l, v.t
    else:
        return False
    for c in p:
        if not C.proved(le(ONE, l)):
            return False
        l = sub(l, ONE)
        half = swt_pow2(l)
        if c == xy[0] and C.proved(lt(t, half)):
            pass
        elif c == xy[1] and C.proved(le(half, t)):
            t = sub(sub(scale(half, 2), ONE), t)
        else:
            return False
    return C.proved(eq(n, l)) and (C.proved(eq(l, ZERO)) or C.proved(eq(q, t)))


def swt_pow2(i):
    return ir.mkuf('pow2', (i,))


def gray_list(v, xy, l):
    """the list v is G(l, 0), ..., G(l, 2^l - 1)"""
    C = core.C
    if not isinstance(v, TList):
        return False
    if C.proved(eq(l, ZERO)):
        l = ZERO
    if len(v.s) == 1 and isinstance(v.s[0], Seg):  # one list of another form of the same level
        t = V(vc.uvar('t'))
        w = v.s[0].fn(t)
        if isinstance(w, Gray) and w.prefix == '' and C.proved(eq(w.l, l)) and C.proved(eq(v.s[0].n, swt_pow2(w.l))):
            return word_is(w, xy, l, t)
    pos = ZERO
    for x in v.s:
        if isinstance(x, El):
            if not word_is(x.v, xy, l, pos):
                return False
            pos = add(pos, ONE)
            continue
        t = V(vc.uvar('t'))
        w = x.fn(t)
        ok = vc.with_assume(band(ge0(t), lt(t, x.n)), lambda: word_is(w, xy, l, add(pos, t)))
        if not ok:
            return False
        pos = add(pos, x.n)
    return C.proved(eq(pos, swt_pow2(l)))


class GrayT(vc.Tmpl):
    def __init__(self, xy, off):
        self.xy, self.off = xy, off

    def at(self, i, st):
        l = add(i, K(self.off))
        return TList.of([Seg(swt_pow2(l), lambda t: Gray(self.xy, l, t))])

    def holds(self, v, i, st):
        return gray_list(v, self.xy, add(i, K(self.off)))

    def __repr__(self):
        return f'the reflected list of level i+{self.off}'


def order_spec(W, d, order, via='get_level', xy=('a', 'd')):
    """get_level lists the words of the level in the given order"""
    def body():
        C = core.C
        C.store['contracts'] = dict(vc.CONTRACTS)

        def templates(v0, v1):
            return [t for t in (GrayT(xy, 0), GrayT(xy, 1)) if gray_list(v0, xy, K(t.off)) and (v1 is v0 or gray_list(v1, xy, K(1 + t.off)))]
        C.store['extra_templates'] = (templates,)
        J = V('J')
        C.assume(ge0(J))
        cls = W.load('packets').WaveletPacket if d == 1 else W.load('packets').WaveletPacket2D
        f = getattr(cls, via)
        args = (mk(J),) + (() if order is None or via != 'get_level' else (order,))
        r = verify.call(via, f, *args)
        expect_type('the result is a list', r, (TList, list))
        r = TList.of([El(x) for x in r]) if type(r) is list else r
        if (order or 'freq') == 'freq' and d == 1:
            C.record('the t-th word is the reflected word G(level, t), for 0 <= t < 2^level', 'discharged' if gray_list(r, xy, J) else 'unknown', backend='z3', time=0)
            return
        k = len(CHARS[d])
        n = swt_pow2(J) if k == 2 else ir.mkuf(f'pow{k}', (J,))
        segs = [x for x in r.s if not (isinstance(x, Seg) and C.proved(eq(x.n, ZERO)))]
        ok = len(segs) == 1 and isinstance(segs[0], Seg) and C.proved(eq(segs[0].n, n))
        if ok:
            t = V('t')
            C.assume(band(ge0(t), lt(t, n)))
            w = segs[0].fn(t)
            ok = isinstance(w, fseq.Word) and w.alphabet == tuple(CHARS[d]) and C.proved(band(eq(w.n, J), eq(w.t, t)))
        C.record('the t-th word is the t-th tuple of itertools.product, for every level', 'discharged' if ok else 'unknown', backend='z3', time=0)
    return f'packets[{d}-D] {via}(level{"" if order is None else ", " + repr(order)})', body


QUAD = dict(a=('l', 'l'), h=('h', 'l'), v=('l', 'h'), d=('h', 'h'))


def grid_spec(W, how):
    """the frequency order of the 2-D tree: entry (s, t) is the word whose row letters are G(level, s) and whose column letters are G(level, t) (l = low, h = high)"""
    def body():
        C = core.C
        C.store['contracts'] = dict(vc.CONTRACTS)
        xy = ('l', 'h')

        def templates(v0, v1):
            return [t for t in (GrayT(xy, 0), GrayT(xy, 1)) if gray_list(v0, xy, K(t.off)) and (v1 is v0 or gray_list(v1, xy, K(1 + t.off)))]
        C.store['extra_templates'] = (templates,)
        J = V('J')
        C.assume(ge0(J))
        cls = W.load('packets').WaveletPacket2D
        r = verify.call('get_level', *{'get_level': (cls.get_level, mk(J)), 'freq': (cls.get_level, mk(J), 'freq'), 'direct': (cls.get_freq_order, mk(J))}[how])
        if C.proved(eq(J, ZERO)):
            J = ZERO
        n = swt_pow2(J)

        def at(v, t):
            """entry t of a list of 2^J entries"""
            if type(v) is list:
                v = TList.of([El(x) for x in v])
            if not isinstance(v, TList):
                return None
            segs = [x for x in v.s if not (isinstance(x, Seg) and C.proved(eq(x.n, ZERO)))]
            if len(segs) != 1:
                return None
            if isinstance(segs[0], El):
                return segs[0].v if C.proved(eq(n, ONE)) else None
            return segs[0].fn(t) if C.proved(eq(segs[0].n, n)) else None
        if isinstance(r, (TList, list)) and len(r.s if isinstance(r, TList) else r) == 0:
            C.record('the grid has 2^level rows', 'refuted', backend='z3', time=0, model=C.model_dict())
            return
        s, t = V('s'), V('t')
        C.assume(band(ge0(s), lt(s, n), ge0(t), lt(t, n)))
        row = at(r, s)
        C.record('the grid has 2^level rows', 'discharged' if row is not None else 'unknown', backend='z3', time=0)
        w = at(row, t)
        C.record('every row has 2^level words', 'discharged' if w is not None else 'unknown', backend='z3', time=0)
        ok = isinstance(w, fseq.PWord)
        if ok:
            w = w.w
            ok = dict(zip(w.alphabet, zip(*w.images))) == QUAD and C.proved(eq(w.n, J)) and word_is(w.pins[0], xy, J, s) and word_is(w.pins[1], xy, J, t)
        C.record('word (s, t) has the row letters G(level, s) and the column letters G(level, t)', 'discharged' if ok else 'unknown', backend='z3', time=0)
    return f'packets[2-D] frequency grid, {how}', body


# ------------------------------------------------------------------ C23: misuse
def reject_specs(W, d):
    from specs.reject import Other
    axes = [-1] if d == 1 else [-2, -1]
    out = []

    def spec(title, f):
        def body():
            w = World_(W, d, d + 1, axes, 'zero')
            exc, g = f(w)
            verify.raises(title, g, exc)
        out.append((f'packets[{d}-D] {title}', body))

    def read(c, deep):
        def f(w):
            C = core.C
            t = w.reachable()
            n = V('len')
            C.assume(ge0(n))
            w.base = Base('p', n)
            w.outer = add(n, ONE)
            w.recursion()
            C.assume(le(w.M, n) if deep else lt(n, w.M))
            return (KeyError if deep else (ValueError, KeyError)), lambda: t[SKey(w.base, c)]
        return f
    spec('reading a node deeper than the maximal level', read('a', True))
    spec('reading a node by a letter outside the alphabet', read('x', False))

    def empty(use):
        def f(w):
            t = w.make(None, None)
            return (ValueError, KeyError), lambda: use(t)
        return f
    spec('reading the root of a tree without data', empty(lambda t: t['']))
    spec('reading a node of a tree without data', empty(lambda t: t['a']))
    spec('reconstruction of a tree without data', empty(lambda t: t.reconstruct()))
    k = 'axis' if d == 1 else 'axes'

    def ctor(**kw):
        return lambda w: ((ValueError, NotImplementedError), lambda: w.cls()(None, wavelet_arg(w.w, 'obj', w.dtype), mode='zero', **kw))
    spec('an unknown orthogonalisation', ctor(orthogonalization=Other('method')))
    for a in [(0, 1), (0, 0), (-1, -2), ()] if d == 1 else [(0,), (), 0, (0, 1, 2), (1, 1), (-1, -1)]:
        spec(f'axes {a!r}', ctor(**{k: a}))

    def order(w):
        C = core.C
        J = V('J')
        C.assume(ge0(J))
        return ValueError, lambda: w.cls().get_level(mk(J), Other('order'))
    spec('an unknown order', order)
    return out
