"""Loads the translated modules of /repo/src/ptwt into a symbolic namespace."""
import ast
import builtins
import functools
import importlib
import os
import sys
import types

import core
import fakes
import fseq
import transform
import vc
from core import El, Seg, STuple, SymBool, SymFloat, SymInt, SymIter, SRange, TList, Unsupported, as_segments, mk_tuple, tob, top

REPO = os.environ.get('PTV_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'ptwt')


# ------------------------------------------------------------------ builtins
class _M(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._insts)

    def __getitem__(cls, k):
        return cls._base[k]

    def __hash__(cls):
        return type.__hash__(cls)


class IntM(_M):
    def __call__(cls, *a):
        return core.sym_int(*a)


class pint(metaclass=IntM):
    _insts = (int, SymInt, SymBool)
    _base = list


class FloatM(_M):
    def __call__(cls, *a):
        if a and isinstance(a[0], (SymInt, SymFloat)):
            return a[0] if isinstance(a[0], SymFloat) else SymFloat('ratio', (a[0].p, core.ONE))
        return builtins.float(*a)


class pfloat(metaclass=FloatM):
    _insts = (float, SymFloat)
    _base = list


class BoolM(_M):
    def __call__(cls, *a):
        if a and isinstance(a[0], SymBool):
            return a[0]
        if a and isinstance(a[0], SymInt):
            return a[0] != 0
        return builtins.bool(*a)


class pbool(metaclass=BoolM):
    _insts = (bool, SymBool)
    _base = list


class TupM(_M):
    def __call__(cls, it=()):
        return mk_tuple(as_segments(it))


class ptuple(metaclass=TupM):
    _insts = (tuple, STuple)
    _base = tuple


class ListM(_M):
    def __call__(cls, it=()):
        return TList(it)


class plist(metaclass=ListM):
    _insts = (TList, list)
    _base = list


def p_type(x, *rest):
    """the type as the program sees it"""
    if rest:
        return builtins.type(x, *rest)
    if isinstance(x, vc.Poison):
        raise Unsupported('type of an unknown value')
    if isinstance(x, (bool, SymBool)):
        return pbool
    if isinstance(x, (int, SymInt)):
        return pint
    if isinstance(x, TList) or builtins.type(x) is list:
        return plist
    if isinstance(x, STuple) or builtins.type(x) is tuple:
        return ptuple
    if isinstance(x, dict) and getattr(x, 'caller_owned', False):
        return dict
    if isinstance(x, fakes.WName):
        return str
    if isinstance(x, (float, core.SymFloat)):
        return pfloat
    return builtins.type(x)


def p_isinstance(x, cls):
    if cls is p_type:
        cls = builtins.type
    if isinstance(cls, tuple):
        return any(p_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(p_isinstance(x, c) for c in cls.__args__)
    if cls is pint:
        return isinstance(x, (int, SymInt, SymBool))
    if cls is tuple:
        return isinstance(x, (tuple, STuple))
    if cls is list:
        return isinstance(x, (TList, list))
    if isinstance(cls, type):
        import collections.abc as cabc
        if cls is cabc.Sequence and isinstance(x, (TList, STuple, SRange)):
            return True
        if cls is cabc.Iterable and isinstance(x, (TList, STuple, SRange, SymIter)):
            return True
    if isinstance(cls, fakes.Missing):
        return False
    if isinstance(x, vc.Poison):
        raise Unsupported('type of an unknown value')
    return builtins.isinstance(x, cls)


def _segs(it):
    if isinstance(it, (TList, STuple, SRange, SymIter)) or hasattr(it, '_sym_segments'):
        s = core.norm_segs(as_segments(it))
        return s
    return None


def p_map(f, *its):
    if len(its) == 1:
        s = _segs(its[0])
        if s is not None and any(isinstance(x, Seg) for x in s):
            return SymIter([El(f(x.v)) if isinstance(x, El) else Seg(x.n, lambda t, x=x: f(x.fn(t))) for x in s])
        if s is not None:
            return builtins.map(f, [x.v for x in s])
    return builtins.map(f, *its)


def p_filter(f, it):
    s = _segs(it)
    if s is not None and any(isinstance(x, Seg) for x in s):
        raise Unsupported('filter over a symbolic range')
    vals = [x.v for x in s] if s is not None else list(it)
    out = []
    for v in vals:
        r = f(v) if f is not None else v
        if core.C.decide(tob(r)) if isinstance(r, SymBool) else r:
            out.append(v)
    return builtins.iter(out)


def p_zip(*its, strict=False):
    ss = [_segs(it) for it in its]
    if all(s is None or all(isinstance(x, El) for x in s) for s in ss):
        return builtins.zip(*[it if s is None else [x.v for x in s] for it, s in zip(its, ss)], strict=strict)
    ss = [s if s is not None else [El(v) for v in it] for it, s in zip(its, ss)]
    C = core.C
    out = []
    ss = [list(s) for s in ss]
    while all(ss):
        heads = [s[0] for s in ss]
        if all(isinstance(h, El) for h in heads):
            out.append(El(tuple(h.v for h in heads)))
            for s in ss:
                s.pop(0)
            continue
        # common length of the heads
        lens = [core.seg_len(h) for h in heads]
        m = lens[0]
        for x in lens[1:]:
            if C.decide(core.le(x, m)):
                m = x
        if not C.decide(core.lt(core.ZERO, m)):
            for s, l in zip(ss, lens):
                if C.proved(core.eq(l, core.ZERO)):
                    s.pop(0)
            if all(s and s[0] is h for s, h in zip(ss, heads)):
                raise Unsupported('zip')
            continue
        if m.const() == 1 or any(isinstance(h, El) for h in heads):
            out.append(El(tuple(h.v if isinstance(h, El) else h.fn(core.ZERO) for h in heads)))
            m = core.ONE
        else:
            fs = [h.fn for h in heads]
            out.append(Seg(m, lambda t, fs=fs: tuple(f(t) for f in fs)))
        for s, h, l in zip(ss, heads, lens):
            s.pop(0)
            if isinstance(h, Seg) and not C.proved(core.eq(l, m)):
                s.insert(0, Seg(core.sub(l, m), lambda t, h=h, m=m: h.fn(core.add(t, m))))
    if strict and any(ss):
        raise ValueError('zip() argument lengths differ')
    return SymIter(out)


def p_enumerate(it, start=0):
    s = _segs(it)
    if s is None or all(isinstance(x, El) for x in s) and isinstance(start, int):
        if isinstance(it, TList):
            return builtins.enumerate(it, start)
        return builtins.enumerate(it if s is None else [x.v for x in s], start)
    pos = top(start)
    out = []
    for x in s:
        if isinstance(x, El):
            out.append(El((core.mk(pos), x.v)))
            pos = core.add(pos, core.ONE)
        else:
            out.append(Seg(x.n, lambda t, x=x, pos=pos: (core.mk(core.add(pos, t)), x.fn(t))))
            pos = core.add(pos, x.n)
    return SymIter(out)


def p_reversed(it):
    if isinstance(it, SRange):
        return it.__reversed__()
    s = _segs(it)
    if s is None:
        return builtins.reversed(it)
    return SymIter(core.rev_segments(s))


def p_sum(it, start=0):
    s = _segs(it)
    if s is not None and any(isinstance(x, Seg) for x in s):
        raise Unsupported('sum over a symbolic range')
    r = start
    for v in ([x.v for x in s] if s is not None else it):
        r = r + v
    return r


def _quant(it, want):
    """want=True: any, want=False: all"""
    s = _segs(it)
    C = core.C
    if s is None or all(isinstance(x, El) for x in s):
        # no decision is taken: the answer is a formula
        acc = core.FALSE if want else core.TRUE
        vals = iter(it) if s is None else (x.v for x in s)
        while True:
            try:
                v = next(vals)
            except StopIteration:
                break
            except Exception as e:  # noqa: BLE001
                if isinstance(acc, tuple) and acc in (core.TRUE, core.FALSE):
                    raise
                raise Unsupported('any/all: a later element raises') from e
            b = tob(v) if isinstance(v, SymBool) else core.TRUE if v else core.FALSE
            acc = core.bor(acc, b) if want else core.band(acc, b)
            if acc == (core.TRUE if want else core.FALSE):
                return want
        return core.mkb(acc)
    for x in s:
        if isinstance(x, El):
            b = C.decide(tob(x.v)) if isinstance(x.v, SymBool) else bool(x.v)
            if b == want:
                return want
            continue
        t = core.V(vc.uvar('t'))
        C.formula_mode += 1
        try:
            b = tob(x.fn(t))
        finally:
            C.formula_mode -= 1
        dom = core.band(core.ge0(t), core.lt(t, x.n))
        if want is False:
            b = core.bnot(b)
        # exists t: b ?
        if C.check(dom, b) == 'unsat':
            continue
        if C.decide(core.lt(core.ZERO, x.n)):
            t0 = core.ir.subst(b, {next(iter(core.ir.fv(t))): core.ZERO})
            if C.proved(t0):
                return want
            raise Unsupported('any/all over a symbolic range')
    return not want


def p_any(it):
    return _quant(it, True)


def p_all(it):
    return _quant(it, False)


def p_sorted(it, key=None, reverse=False):
    s = _segs(it)
    if s is not None and any(isinstance(x, Seg) for x in s):
        raise Unsupported('sorted over a symbolic range')
    vals = [x.v for x in s] if s is not None else list(it)
    if key is None and any(isinstance(v, SymInt) for v in vals):
        raise Unsupported('sort of symbolic integers')
    return TList(builtins.sorted(vals, key=key, reverse=reverse))


def p_set(it=()):
    s = _segs(it)
    return builtins.set([x.v for x in s] if s is not None else it)


class SetM(_M):
    def __call__(cls, it=()):
        return p_set(it)


class pset(metaclass=SetM):
    _insts = (set,)
    _base = set


def p_abs(x):
    return builtins.abs(x)


def p_len(x):
    return core.sym_len(x)


def p_round(x, *a):
    if isinstance(x, (SymInt, int)):
        return x
    if isinstance(x, SymFloat):
        raise Unsupported('round')
    return builtins.round(x, *a)


def p_pow(a, b, *m):
    return a ** b if not m else builtins.pow(a, b, *m)


def p_divmod(a, b):
    return (a // b, a % b)


def p_iter(x):
    if isinstance(x, SRange):
        return SymIter(as_segments(x))
    return builtins.iter(x)


# ------------------------------------------------------------------ modules
class World:
    def __init__(self):
        torch, F, nn = fakes.make_torch()
        self.fake = {
            'torch': torch, 'torch.nn': nn, 'torch.nn.functional': F, 'numpy': fakes.make_numpy(), 'pywt': fakes.make_pywt(),
            'more_itertools': fakes.Mod('more_itertools', grouper=fakes.grouper),
        }
        self.mods = {}
        self.src = {}
        b = dict(vars(builtins))
        b.update(len=p_len, range=core.sym_range, isinstance=p_isinstance, type=p_type, int=pint, float=pfloat, bool=pbool, list=plist, tuple=ptuple,
                 set=pset, map=p_map, filter=p_filter, zip=p_zip, enumerate=p_enumerate, reversed=p_reversed, sum=p_sum, any=p_any,
                 all=p_all, sorted=p_sorted, min=core.sym_min, max=core.sym_max, round=p_round, pow=p_pow, divmod=p_divmod, iter=p_iter,
                 __import__=self.imp, print=lambda *a, **k: None)
        self.builtins = b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level or name == 'ptwt' or name.startswith('ptwt.'):
            short = name[5:] if name.startswith('ptwt.') else '' if name == 'ptwt' else name
            if not short:
                ns = types.SimpleNamespace()
                for f in fromlist:
                    setattr(ns, f, self.load(f))
                return ns
            return self.load(short)
        if name in self.fake:
            if not fromlist and '.' in name:
                return self.fake[name.split('.')[0]]
            return self.fake[name]
        root = name.split('.')[0]
        if root in ('torch', 'numpy', 'pywt', 'more_itertools', 'scipy', 'matplotlib'):
            return fakes.Mod(name)
        if name == 'typing' or name == 'typing_extensions':
            return builtins.__import__(name, None, None, fromlist, 0)
        if name == 'sys':
            out = fakes.Mod('sys.stderr', write=lambda *a: None, flush=lambda: None)
            return fakes.Mod('sys', stderr=out, stdout=out)
        if name == 'math':
            import math
            return fakes.Mod('math', log2=fakes.np_log2, ceil=fakes.Missing('ceil'), floor=fakes.Missing('floor'), sqrt=math.sqrt, pi=math.pi,
                             prod=fakes.np_prod)
        if name == 'collections':
            import collections
            return fakes.Mod('collections', UserDict=collections.UserDict, deque=deque, abc=collections.abc, OrderedDict=fakes.Missing('OrderedDict'))
        if name == 'itertools':
            return fakes.Mod('itertools', chain=Chain, product=fseq.product, repeat=fakes.Missing('repeat'))
        return builtins.__import__(name, None, None, fromlist, 0)

    def load(self, short):
        if short in self.mods:
            return self.mods[short]
        path = os.path.join(SRC, short.replace('.', '/') + '.py')
        src = open(path).read()
        self.src[short] = src
        tree = transform.transform(src, short)
        m = types.ModuleType('sym.' + short)
        self.mods[short] = m
        m.__dict__.update(__builtins__=self.builtins, __vc__=vc, __name__='sym.' + short, __package__='sym')
        sys.modules.setdefault('sym.' + short, m)
        saved = core.C
        core.set_ctx(core.Ctx())  # module level code is concrete
        try:
            exec(compile(tree, f'<sym {short}>', 'exec'), m.__dict__)
        finally:
            core.set_ctx(saved)
        return m


def deque(it=(), maxlen=None):
    """collections.deque that only runs an iterator"""
    if maxlen != 0:
        raise Unsupported('deque')
    if _segs(it) is None:
        for _ in it:
            pass
    return None


class Chain:
    def __new__(cls, *its):
        segs = []
        for it in its:
            segs.extend(as_segments(it))
        return SymIter(segs)

    @staticmethod
    def from_iterable(its):
        return Chain(*list(its))


def p_product(*its, repeat=1):
    import itertools
    return itertools.product(*[list(i) for i in its], repeat=repeat)
