"""Runtime called by the translated source: loops (by inductive invariants),
comprehensions, displays, short-circuit operators, function contracts."""
import builtins
import functools
import itertools
import types

import core
import fseq
import ir
from core import (El, Poison, Seg, STuple, SymBool, SymFloat, SymInt, SymIter, SRange, TList, PathEnd, Unsupported,
                  as_segments, mk, mkb, mk_tuple, sym_len, tob, top)
from ir import P, V, ZERO, ONE, TRUE, FALSE, add, sub, mul, le, lt, eq, bnot, band, bor, ge0, K
from tensor import SymTensor, Storage, e_subst, e_atom, F64, Device, prod
import eqprove

_uniq = itertools.count()
REACHED = {}  # qualname -> number of symbolic executions of the body


def uvar(base):
    return f'{base}~{next(_uniq)}'


# ------------------------------------------------------------------ frames and functions
class Frame:
    def __init__(self, q, d):
        self.__dict__.update(d)
        object.__setattr__(self, '_q', q)

    def __getattr__(self, n):
        raise UnboundLocalError(f'local variable {n} is not bound')


def frame(q, d):
    fr = Frame(q, d)
    if core.C is not None:
        st = core.C.__dict__.setdefault('frames', [])
        st.append(fr)
    return fr


CONTRACTS = {}  # qualname -> callable(original function, args, kwargs) -> value
DEPTH = 40


def fn(q, lineno):
    def deco(f):
        @functools.wraps(f)
        def w(*a, **k):
            C = core.C
            if C is None:
                return f(*a, **k)
            con = C.store.get('contracts', CONTRACTS).get(q)
            if con is not None and q not in C.__dict__.setdefault('bodies', set()):
                return con(f, a, k)
            C.__dict__.setdefault('bodies', set()).discard(q)
            if C.depth > DEPTH:
                raise Unsupported(f'recursion without a contract: {q}')
            REACHED[q] = REACHED.get(q, 0) + 1
            C.depth += 1
            st = C.__dict__.setdefault('frames', [])
            n = len(st)
            try:
                return f(*a, **k)
            finally:
                C.depth -= 1
                del st[n:]
        w.__vc__ = q
        return w
    return deco


# ------------------------------------------------------------------ displays and operators
def mklist(*parts):
    segs = []
    for star, v in parts:
        if star:
            segs.extend(as_segments(v))
        else:
            segs.append(El(v))
    return TList.of(segs)


def mktuple(*parts):
    return mk_tuple(mklist(*parts).s)


def and_(*fs):
    C = core.C
    v = True
    for i, f in enumerate(fs):
        v = f()
        if i == len(fs) - 1:
            return v
        if isinstance(v, SymBool):
            if C.formula_mode:
                rest = and_(*fs[i + 1:])
                return mkb(band(v.b, tob(rest)))
            if not C.decide(v.b):
                return False
        elif not v:
            return v
    return v


def or_(*fs):
    C = core.C
    v = False
    for i, f in enumerate(fs):
        v = f()
        if i == len(fs) - 1:
            return v
        if isinstance(v, SymBool):
            if C.formula_mode:
                rest = or_(*fs[i + 1:])
                return mkb(bor(v.b, tob(rest)))
            if C.decide(v.b):
                return True
        elif v:
            return v
    return v


def not_(v):
    if isinstance(v, SymBool):
        return mkb(bnot(v.b))
    if isinstance(v, SymInt):
        return v == 0
    return not v


def in_(x, c):
    if isinstance(c, SRange):
        return c.contains(x)
    if isinstance(c, builtins.range) and isinstance(x, SymInt):
        return SRange(c.start, c.stop, c.step).contains(x)
    if isinstance(c, (TList, STuple, tuple, list)) and core.C is not None:
        b = FALSE
        for y in c:
            r = (x is y) or (x == y)
            b = bor(b, tob(r))
            if b == TRUE:
                return True
        return mkb(b)
    if isinstance(x, (SymInt, SymBool)) and isinstance(c, (dict, set, frozenset)):
        b = FALSE
        for y in c:
            if core.isint(y):
                b = bor(b, tob(x == y))
        return mkb(b)
    return x in c


def joiner(s):
    """s.join"""
    def join(it):
        if hasattr(it, '_join'):
            return it._join(s)
        if type(s) is str and isinstance(it, (TList, STuple)) and not any(isinstance(x, Seg) for x in it.s):
            return s.join([x.v for x in it.s])
        return s.join(it)
    return join if isinstance(s, str) else s.join


# ------------------------------------------------------------------ deep substitution
def is_sym(v):
    return isinstance(v, (SymInt, SymBool, SymTensor, SymFloat))


def deep(v, s):
    """Value with the integer variables of s replaced."""
    if hasattr(type(v), 'deep_subst'):
        return v.deep_subst(s)
    if v is None or isinstance(v, (bool, int, float, str, bytes, complex, type, types.FunctionType, types.BuiltinFunctionType)):
        return v
    if isinstance(v, SymInt):
        return mk(ir.subst(v.p, s))
    if isinstance(v, SymBool):
        return mkb(ir.subst(v.b, s))
    if isinstance(v, SymTensor):
        return deep_tensor(v, s)
    if isinstance(v, TList):
        return TList.of(deep_segs(v.s, s))
    if isinstance(v, STuple):
        return STuple(deep_segs(v.s, s))
    if isinstance(v, tuple):
        xs = [deep(x, s) for x in v]
        return type(v)(*xs) if hasattr(v, '_fields') else type(v)(xs)
    if isinstance(v, dict):
        d = {k: deep(x, s) for k, x in v.items()}
        return type(v)(d) if hasattr(v, 'caller_owned') else d
    if isinstance(v, SymFloat):
        return SymFloat(v.kind, tuple(deep(x, s) if not isinstance(x, P) else ir.subst(x, s) for x in v.args))
    if isinstance(v, Poison):
        return v
    if v.__class__.__module__.startswith(('tensor', 'core', 'fakes')):
        return v
    if hasattr(v, '_deep'):
        return v._deep(s)
    raise Unsupported(f'generalisation of a value of type {type(v).__name__}')


def deep_segs(segs, s):
    out = []
    for x in segs:
        if isinstance(x, El):
            out.append(El(deep(x.v, s)))
        else:
            def f(t, x=x):
                ph = uvar('p')
                return deep(x.fn(V(ph)), dict(s, **{ph: t}))
            out.append(Seg(ir.subst(x.n, s), f))
    return out


def deep_tensor(v, s):
    groups = [tuple(ir.subst(f, s) for f in g) for g in v.groups]
    n = sum(len(g) for g in v.groups)
    # factors may become 1 under the substitution: SymTensor drops those, so remember which remain
    keep = [ir.subst(f, s) != ONE for g in v.groups for f in g]

    def fix(flat):
        it = iter(flat)
        return [next(it) if k else ZERO for k in keep]

    def el(flat):
        ph = [uvar('p') for _ in range(n)]
        e = v.E([V(p) for p in ph])
        return e_subst(e, dict(s, **dict(zip(ph, fix(flat)))))

    def iel(flat):
        ph = [uvar('p') for _ in range(n)]
        return ir.subst(v._ielem([V(p) for p in ph]), dict(s, **dict(zip(ph, fix(flat)))))
    r = SymTensor(groups, el, v._dtype, v._device, v.storage if v.storage.frozen else None, ielem=iel if v._ielem is not None else None)
    r._rg = v._rg
    if v.bcond is not None:
        def bc(flat):
            ph = [uvar('p') for _ in range(n)]
            return ir.subst(v.bcond([V(p) for p in ph]), dict(s, **dict(zip(ph, fix(flat)))))
        r.bcond = bc
    if v.sparse is not None:
        r.sparse = v.sparse if v.sparse is True else True
    return r


# ------------------------------------------------------------------ equality of values (proof)
def tensors_equal(a, b, entries=True):
    """Proved: same shape, dtype and entries (if these matter) on the current path. Returns (bool, reason)."""
    C = core.C
    if len(a.groups) != len(b.groups):
        return False, 'different number of dimensions'
    if a._dtype is not b._dtype:
        return False, f'dtype {a._dtype} instead of {b._dtype}'
    if a._device != b._device:
        return False, 'device differs'
    for g, h in zip(a.groups, b.groups):
        if prod(g) != prod(h) and not (len(g) == len(h) > 1 and all(C.proved(eq(x, y)) for x, y in zip(g, h))) and not C.proved(eq(prod(g), prod(h))):
            return False, f'size {prod(g)} instead of {prod(h)} (model {C.model_dict()})'
    return entries_equal(a, b) if entries else (True, None)


def entries_equal(a, b):
    st, why = entries_status(a, b)
    return st == 'unsat', why


def entries_status(a, b):
    """Entries at one generic index (same factorisation, or the one of a refined by the one of b)."""
    idx_a, idx_b, dom = [], [], TRUE
    for g, h in zip(a.groups, b.groups):
        if len(g) == len(h):
            if len(g) > 1 and not all(x == y or core.C.proved(eq(x, y)) for x, y in zip(g, h)):
                return 'unknown', 'different factorisations'
            xs = [V(uvar('x')) for _ in g]
            idx_a += xs
            idx_b += xs
            fs = g
        else:
            big, small = (g, h) if len(g) > len(h) else (h, g)
            xs = [V(uvar('x')) for _ in big]
            if len(small) == 1:
                lin = ZERO
                for f, x in zip(big, xs):
                    lin = add(mul(lin, f), x)
                other = [lin]
            elif len(small) == 0:
                other = []
            else:
                return 'unknown', 'different factorisations'
            if big is g:
                idx_a += xs
                idx_b += other
            else:
                idx_a += other
                idx_b += xs
            fs = big
        for f, x in zip(fs, xs):
            dom = band(dom, ge0(x), lt(x, f))
    if a._ielem is not None and b._ielem is not None:
        r = core.C.check(dom, bnot(eq(a._ielem(idx_a), b._ielem(idx_b))))
        return r, None if r == 'unsat' else f'{a._ielem(idx_a)} != {b._ielem(idx_b)}'
    return eqprove.equal(a.E(idx_a), b.E(idx_b), dom)


def values_equal(a, b):
    C = core.C
    if a is b:
        return True, None
    if core.isint(a) and core.isint(b):
        return C.proved(eq(top(a), top(b))), f'{a} != {b}'
    if isinstance(a, SymTensor) and isinstance(b, SymTensor):
        return tensors_equal(a, b)
    if isinstance(a, (tuple, STuple)) and isinstance(b, (tuple, STuple)) or isinstance(a, TList) and isinstance(b, TList):
        sa, sb = as_segments(a), as_segments(b)
        if len(sa) != len(sb):
            return False, 'structure'
        for x, y in zip(sa, sb):
            if isinstance(x, El) != isinstance(y, El):
                return False, 'structure'
            if isinstance(x, El):
                ok, w = values_equal(x.v, y.v)
            else:
                if not C.proved(eq(x.n, y.n)):
                    return False, 'length'
                t = V(uvar('t'))
                ok, w = with_assume(band(ge0(t), lt(t, x.n)), lambda: values_equal(x.fn(t), y.fn(t)))
            if not ok:
                return ok, w
        return True, None
    if hasattr(type(a), 'sym_equal') or hasattr(type(b), 'sym_equal'):
        return type(a) is type(b) and a.sym_equal(b), 'ghost'
    if hasattr(type(a), 'word_parts') or hasattr(type(b), 'word_parts'):
        return type(a) is type(b) and same_parts(a.word_parts(), b.word_parts()), 'word'
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return False, f'keys {list(a)} != {list(b)}'
        for k in a:
            ok, w = values_equal(a[k], b[k])
            if not ok:
                return ok, w
        return True, None
    if is_sym(a) or is_sym(b) or isinstance(a, Poison) or isinstance(b, Poison):
        return False, 'kind'
    try:
        return bool(a == b), 'value'
    except Exception:  # noqa: BLE001
        return False, 'value'


def same_parts(a, b):
    """parts of symbolic words: polynomials, concrete values, words, tuples of them"""
    if isinstance(a, P) and isinstance(b, P):
        return a == b or core.C.proved(eq(a, b))
    if hasattr(type(a), 'word_parts'):
        return values_equal(a, b)[0]
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_parts(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and type(a) in (str, int) and a == b


def with_assume(cond, f):
    """Evaluate a proof step under a temporary assumption (no forking allowed to leak)."""
    C = core.C
    C._axioms(cond)
    C.solver.push()
    memo = C._memo
    C._memo = {}
    ax = set(C.ax)
    scales = {k: list(v) for k, v in C.scales.items()}
    try:
        C.solver.add(ir.z3B(cond))
        return f()
    finally:
        C.solver.pop()
        C._memo = memo
        C.ax = ax
        C.scales = scales


# ------------------------------------------------------------------ ghosts
class Ghost:
    """A specification sequence of tensors G(i), i >= 0, used in invariants.

    lead: fixed leading factor sizes; sizes: functions i -> P (one per transformed dim);
    entries are atoms name(i, lead..., dims...).
    """

    def __init__(self, name, lead, sizes, dtype, device=None, sparse=None, opaque=False):
        self.opaque = opaque  # any entries: G(i) is whatever the value is
        self.name, self.lead, self.sizes, self.dtype, self.device, self.sparse = name, list(lead), list(sizes), dtype, device, sparse

    def factors(self, i):
        return self.lead + [f(i) for f in self.sizes]

    def tensor(self, i, shape=None):
        fs = self.factors(i)
        groups = shape if shape is not None else [(f,) for f in fs]
        return SymTensor(groups, lambda flat: e_atom(self.name, [i] + list(flat)), self.dtype, self.device, sparse=self.sparse)


def ghosts():
    return core.C.ghosts


# ------------------------------------------------------------------ templates
class Tmpl:
    pass


class Same(Tmpl):
    def __init__(self, v):
        self.v = v

    def at(self, i, st):
        return self.v

    def holds(self, v, i, st):
        return values_equal(v, self.v)[0]

    def __repr__(self):
        return 'unchanged'


class IntLin(Tmpl):
    def __init__(self, v0, d):
        self.v0, self.d = v0, d

    def at(self, i, st):
        return mk(add(self.v0, mul(self.d, i)))

    def holds(self, v, i, st):
        return core.isint(v) and core.C.proved(eq(top(v), top(self.at(i, st))))

    def __repr__(self):
        return f'{self.v0} + {self.d}*i'


class IntFn(Tmpl):
    def __init__(self, f, label):
        self.f, self.label = f, label

    def at(self, i, st):
        return mk(self.f(i))

    def holds(self, v, i, st):
        return core.isint(v) and core.C.proved(eq(top(v), self.f(i)))

    def __repr__(self):
        return self.label


class BoolFn(Tmpl):
    """A Boolean given by a condition on the iteration number."""

    def __init__(self, f, label):
        self.f, self.label = f, label

    def at(self, i, st):
        return mkb(self.f(i))

    def holds(self, v, i, st):
        if not isinstance(v, (bool, SymBool)):
            return False
        return same_value(v, mkb(self.f(i)))

    def __repr__(self):
        return self.label


class GhostT(Tmpl):
    """Tensor = ghost sequence element i+off; unit dims at the given positions."""

    def __init__(self, g, off, dims, tr=0):
        # dims: number of factors per tensor dim; tr: 0 in order, 1 leading factors last, 2 also the transformed factors in reverse order
        self.g, self.off, self.dims, self.tr = g, off, dims, tr
        nl, n = len(g.lead), len(g.lead) + len(g.sizes)
        lead, rest = list(range(nl)), list(range(nl, n))
        self.perm = lead + rest if not tr else rest[::-1 if tr == 2 else 1] + lead

    def at(self, i, st):
        j = add(i, K(self.off))
        fs = self.g.factors(j)
        perm = self.perm
        fs = [fs[p] for p in perm]
        groups, p = [], 0
        for k in self.dims:
            groups.append(tuple(fs[p:p + k]))
            p += k
        t = SymTensor(groups, None, self.g.dtype, self.g.device, sparse=self.g.sparse)
        keep = [f != ONE for f in fs]

        def el(flat):
            it = iter(flat)
            ix = [None] * len(perm)
            for q, k in zip(perm, keep):
                ix[q] = next(it) if k else ZERO
            assert next(it, None) is None
            return e_atom(self.g.name, [j] + ix)
        t._elem = el
        return t

    def holds(self, v, i, st):
        return isinstance(v, SymTensor) and v.is_sparse == bool(self.g.sparse) and tensors_equal(v, self.at(i, st), not self.g.opaque)[0]

    def __repr__(self):
        return f'{self.g.name}(i+{self.off}) as {self.dims}{("", " transposed", " columns first")[self.tr]}'


class TupT(Tmpl):
    def __init__(self, cls, parts):
        self.cls, self.parts = cls, parts

    def at(self, i, st):
        xs = [p.at(i, st) for p in self.parts]
        if self.cls is TList:
            return TList.of([El(x) for x in xs])
        return self.cls(*xs) if hasattr(self.cls, '_fields') else self.cls(xs)

    def holds(self, v, i, st):
        if type(v) is not self.cls:
            return False
        if isinstance(v, TList):
            if not v.concrete():
                return False
            v = [e.v for e in v.s]
        return len(v) == len(self.parts) and all(p.holds(x, i, st) for p, x in zip(self.parts, v))

    def __repr__(self):
        return f'{self.cls.__name__}{self.parts}'


class AfterFirst(Tmpl):
    """v0 before the first iteration (another container kind), t afterwards."""

    def __init__(self, v0, t):
        self.v0, self.t = v0, t

    def at(self, i, st):
        return self.v0 if core.C.decide(eq(i, ZERO)) else self.t.at(i, st)

    def holds(self, v, i, st):
        return core.C.proved(lt(ZERO, i)) and self.t.holds(v, i, st)

    def __repr__(self):
        return f'after the first iteration {self.t}'


class DictT(Tmpl):
    def __init__(self, parts):
        self.parts = parts

    def at(self, i, st):
        return {k: p.at(i, st) for k, p in self.parts.items()}

    def holds(self, v, i, st):
        return isinstance(v, dict) and list(v) == list(self.parts) and all(p.holds(v[k], i, st) for k, p in self.parts.items())

    def __repr__(self):
        return repr(self.parts)


class PoisonT(Tmpl):
    def at(self, i, st):
        return Poison('not described by the loop invariant')

    def holds(self, v, i, st):
        return True

    def __repr__(self):
        return '?'


class ListT(Tmpl):
    """List contents: base segments + one chunk of k elements per finished iteration (append or prepend)."""

    def __init__(self, base, k, prepend):
        self.base, self.k, self.prepend = base, k, prepend
        self.elts = None  # list of (variable, value), one per chunk position

    def chunkseg(self, i):
        """Segments for the chunks 0..i-1 in list order."""
        elts, k = self.elts, self.k

        def get(q):
            def f(t):
                if elts is None:
                    return Poison('list element before the invariant is known')
                var, v = elts[q]
                return deep(v, {var: t})
            return f
        if k == 1:
            f = get(0)
            if self.prepend:
                return [Seg(i, lambda t: f(sub(sub(i, ONE), t)))]
            return [Seg(i, f)]
        fs = [get(q) for q in range(k)]
        if self.prepend:
            raise Unsupported('several elements prepended per iteration')

        def g(t):
            q = ir.mod(t, K(k))
            d = ir.div(t, K(k))
            for c in range(k):
                if core.C.decide(eq(q, K(c))):
                    return fs[c](d)
        return [Seg(mul(i, K(k)), g)]

    def segs(self, i):
        ch = self.chunkseg(i)
        return ch + self.base if self.prepend else self.base + ch


def same_seg(x, y):
    if x is y:
        return True
    if isinstance(x, El) and isinstance(y, El):
        return x.v is y.v
    return False


# ------------------------------------------------------------------ reachable state
def is_obj(v):
    return getattr(type(v), '__module__', '').startswith('sym.') and hasattr(v, '__dict__') and not isinstance(v, type)


def walk(roots):
    """All mutable containers reachable from the frames: id -> object."""
    seen = {}
    stack = list(roots)
    while stack:
        v = stack.pop()
        if isinstance(v, (TList, dict, list, set)) or is_obj(v) or isinstance(v, Frame) or isinstance(v, SymTensor):
            if id(v) in seen:
                continue
            seen[id(v)] = v
        if isinstance(v, (TList, STuple)):
            for x in v.s:
                if isinstance(x, El):
                    stack.append(x.v)
        elif isinstance(v, dict):
            stack.extend(v.values())
        elif isinstance(v, (tuple, list, set)):
            stack.extend(v)
        elif isinstance(v, Frame) or is_obj(v):
            stack.extend(v.__dict__.values())
        elif isinstance(v, functools.partial):
            stack.extend(v.args)
            stack.extend(v.keywords.values())
        elif isinstance(v, types.MethodType):
            stack.append(v.__self__)
        elif isinstance(v, types.FunctionType) and v.__closure__:
            for c in v.__closure__:
                try:
                    w = c.cell_contents
                except ValueError:
                    continue
                if isinstance(w, (Frame, TList, dict, list, types.FunctionType, functools.partial)) or is_obj(w):
                    stack.append(w)
    return seen


def snapshot(frames):
    snap = {}
    for k, v in walk(frames).items():
        if isinstance(v, TList):
            snap[k] = (v, list(v.s))
        elif isinstance(v, dict):
            snap[k] = (v, dict(v))
        elif isinstance(v, SymTensor):
            snap[k] = (v, v.storage.version, v._snap() if v.version == v.storage.version else None)
        elif isinstance(v, (list, set)):
            snap[k] = (v, list(v))
        else:
            snap[k] = (v, dict(v.__dict__))
    return snap


def holds(x, t):
    if isinstance(x, SymTensor):
        return x.storage is t.storage
    return isinstance(x, (tuple, STuple)) and any(holds(y.v if isinstance(y, El) else y, t) for y in (x.s if isinstance(x, STuple) else x))


MISSING = object()


def keyed(v):
    return v if isinstance(v, dict) else v.__dict__


class LoopInfo:
    def __init__(self):
        self.plan = {0: 'peel'}
        self.locs = None  # location key -> list of candidate templates
        self.order = None
        self.drop = set()
        self.lists = {}
        self.done_peel = False
        self.elts = {}
        self.redo = False
        self.used, self.excluded = {}, {}
        self.tries = 0
        self.vars = {}
        self.first = None

    def var(self, c):
        """The iteration number: the same name whenever the path is executed again (recorded list elements mention those of outer loops)."""
        if c not in self.vars:
            self.vars[c] = uvar('i')
        return self.vars[c]


def loc_paths(snap, frames):
    """Stable names for containers, independent of object identity across re-executions."""
    names = {}
    queue = []
    for n, f in enumerate(frames):
        names[id(f)] = f'f{n}'
        queue.append(f)
    while queue:
        v = queue.pop(0)
        nm = names[id(v)]
        if isinstance(v, (TList, STuple)):
            ch = [(f'[{i}]', x.v) for i, x in enumerate(v.s) if isinstance(x, El)]
        elif isinstance(v, dict):
            ch = [(f'[{k!r}]', x) for k, x in v.items()]
        elif isinstance(v, (tuple, list)):
            ch = [(f'[{i}]', x) for i, x in enumerate(v)]
        elif isinstance(v, Frame) or is_obj(v):
            ch = [(f'.{k}', x) for k, x in v.__dict__.items()]
        else:
            ch = []
            if isinstance(v, functools.partial):
                ch = [(f'()', x) for i, x in enumerate(v.args)] + [(f'({k})', x) for k, x in v.keywords.items()]
            elif isinstance(v, types.MethodType):
                ch = [('.self', v.__self__)]
            elif isinstance(v, types.FunctionType) and v.__closure__:
                ch = []
                for q, c in enumerate(v.__closure__):
                    try:
                        ch.append((f'<{q}>', c.cell_contents))
                    except ValueError:
                        pass
        for suf, x in ch:
            if id(x) in names or x is None or isinstance(x, (int, float, str, SymInt, SymBool)):
                continue
            if isinstance(x, (TList, STuple, dict, tuple, list, set, Frame, SymTensor, functools.partial, types.MethodType, types.FunctionType)) or is_obj(x):
                names[id(x)] = nm + suf
                queue.append(x)
    return names


class Loop:
    """One loop with a symbolic number of iterations on one path."""

    def __init__(self, lid, info, fr):
        self.lid, self.info, self.fr = lid, info, fr
        C = core.C
        self.frames = list(C.__dict__.get('frames', []))
        if fr not in self.frames:
            self.frames.append(fr)
        self.snap0 = snapshot(self.frames)
        self.names = loc_paths(self.snap0, self.frames)

    def diff(self):
        """Locations changed since the loop was entered/havocked: list of (kind, container, key)."""
        out = []
        written = []
        for k, (v, old, *more) in list(self.snap.items()):
            if isinstance(v, TList):
                if len(v.s) != len(old) or any(a is not b and not same_seg(a, b) for a, b in zip(v.s, old)):
                    out.append(('list', v, None))
            elif isinstance(v, SymTensor):
                if v.storage.version != old:
                    h = self.holder(v, more[0])
                    out.append(('tensor', v, None) if h is None else ('key', *h))
                    if h is not None:
                        written.append((h[0], h[1], more[0]))
            elif isinstance(v, (list, set)):
                if list(v) != old:
                    out.append(('native', v, None))
            else:
                d = keyed(v)
                for q in list(old) + [q for q in d if q not in old]:
                    a, b = old.get(q, MISSING), d.get(q, MISSING)
                    if a is not b and not (isinstance(a, (int, str)) and type(a) is type(b) and a == b):
                        if isinstance(v, Frame) and q == '_q':
                            continue
                        out.append(('key', v, q))
        for v, q, was in written:  # the value before, not the tensor that was written
            self.snap[id(v)] = (v, dict(self.snap[id(v)][1], **{q: was}))
        return out

    def holder(self, t, was):
        """The only place that holds a tensor written in place (nothing else shares its storage): such a write rebinds the place."""
        if was is None or t.version != t.storage.version:
            return None
        hs = []
        now = walk(self.frames)
        for k, v in list(now.items()) + [(k, x[0]) for k, x in self.snap.items() if k not in now]:
            if isinstance(v, SymTensor):
                if v is not t and v.storage is t.storage:
                    return None
            elif isinstance(v, TList):
                if any(isinstance(x, El) and holds(x.v, t) for x in v.s):
                    return None
            elif isinstance(v, (list, set)):
                if any(holds(x, t) for x in v):
                    return None
            else:
                for q, x in keyed(v).items():
                    if x is t:
                        hs.append((v, q))
                    elif holds(x, t) or callable(x) and not isinstance(x, type) and id(t) in walk([x]):
                        return None
        return hs[0] if len(hs) == 1 and isinstance(hs[0][0], Frame) else None

    def name(self, kind, v, q):
        nm = self.names.get(id(v))
        if nm is None:
            raise Unsupported(f'loop {self.lid}: unnamed container')
        return (kind, nm, q)

    def find(self, nm):
        """container with path nm on this execution"""
        for k, (v, *_) in self.snap0.items():
            if self.names.get(k) == nm:
                return v
        raise Unsupported(f'loop {self.lid}: container {nm} is gone')


def templates(v0, v1, skip_same=False):
    """Candidate templates for a location with value v0 before and v1 after the first iteration."""
    C = core.C
    out = []
    if v0 is MISSING or isinstance(v0, Poison):
        return [PoisonT()]
    if values_equal(v0, v1)[0]:
        out.append(Same(v0))
    for f in C.store.get('extra_templates', ()):
        out.extend(f(v0, v1))
    if core.isint(v0) and core.isint(v1):
        d = sub(top(v1), top(v0))
        for g in ghosts().values():
            for q, f in enumerate(getattr(g, 'sizes', ())):
                for off in (0, 1, -1):
                    try:
                        if C.proved(eq(top(v0), f(K(off)))) and C.proved(eq(top(v1), f(K(off + 1)))):
                            out.append(IntFn(lambda i, f=f, off=off: f(add(i, K(off))), f'size {q} of {g.name}(i+{off})'))
                    except Unsupported:
                        pass
        out.append(IntLin(top(v0), d))
    elif isinstance(v0, SymTensor) and isinstance(v1, SymTensor):
        for g in ghosts().values():
            if not isinstance(g, Ghost):
                continue
            for off in (0, 1):
                for dims, tr in itertools.product(layouts(v0, g, off), (0, 1, 2) if len(g.sizes) == 2 else (0, 1) if g.lead else (0,)):
                    t = GhostT(g, off, dims, tr)
                    try:
                        start, why = tensors_equal(v0, t.at(ZERO, None), not g.opaque)
                        if v0.is_sparse != bool(g.sparse):
                            continue
                        if not start and why and 'terms' in str(why):
                            C.store.setdefault('hints', []).append(C.model_dict())
                        if start:
                            ok, why = tensors_equal(v1, t.at(ONE, None), not g.opaque)
                            if ok:
                                out.append(t)
                            else:
                                C.__dict__.setdefault('near', []).append((repr(t), why, C.model_dict()))
                    except Unsupported:
                        pass
    elif isinstance(v0, tuple) and type(v0) is type(v1) and len(v0) == len(v1):
        out.extend(TupT(type(v0), parts) for parts in combos([templates(a, b) for a, b in zip(v0, v1)]))
    elif isinstance(v0, TList) and isinstance(v1, TList) and v0.concrete() and v1.concrete() and len(v0.s) == len(v1.s):
        out.extend(TupT(TList, parts) for parts in combos([templates(a.v, b.v) for a, b in zip(v0.s, v1.s)]))
    elif isinstance(v0, tuple) and isinstance(v1, TList) and v1.concrete() and len(v0) == len(v1.s):
        out.extend(AfterFirst(v0, TupT(TList, parts)) for parts in combos([templates(a, b.v) for a, b in zip(v0, v1.s)]))
    elif isinstance(v0, dict) and isinstance(v1, dict) and list(v0) == list(v1):
        out.append(DictT({k: templates(v0[k], v1[k])[0] for k in v0}))
    out.append(PoisonT())
    return out


def combos(cands, limit=24):
    return list(itertools.islice(itertools.product(*cands), limit))


def layouts(v, g, off):
    """How the factors of the ghost are distributed over the dims of v."""
    n = len(g.lead) + len(g.sizes)
    dims = [len(x) for x in v.groups]
    if sum(dims) == n:
        yield tuple(dims)


def segments(it):
    if isinstance(it, (TList, STuple, SRange, SymIter)):
        return as_segments(it)
    if isinstance(it, SymTensor):
        return it._sym_segments()
    return None


def loop(lid, it, fr, mods):
    C = core.C
    if getattr(type(it), 'generic_loop', False) is True:
        yield from generic_loop(lid, it, fr, mods)
        return
    if isinstance(it, SRange):
        c = it.count().const()
        segs = as_segments(it)
    else:
        segs = segments(it)
    if segs is None:
        for v in it:
            yield v
        return
    if all(isinstance(x, El) for x in segs):
        if isinstance(it, TList):
            yield from iter(it)
        else:
            for x in segs:
                yield x.v
        return
    for x in segs:
        if isinstance(x, El):
            yield x.v
            continue
        c = x.n.const()
        if c is None and C.proved(eq(x.n, ZERO)):
            c = 0
        if c is not None:
            for t in range(c):
                yield x.fn(K(t))
            continue
        if len(segs) == 1 and fseq.words_in(x.fn(V(uvar('t')))):
            g = fseq.dict_loop(lid, x.n, x.fn, fr, mods)
            if g is not None:
                yield from g
                continue
        yield from seg_loop(lid, x.n, x.fn, fr, mods)


def generic_loop(lid, it, fr, mods):
    """A loop over an enumeration with its own invariant: it.begin(), it.step() -> element, it.check(), it.end()."""
    C = core.C
    if '!leaves' in mods:
        raise Unsupported(f'loop {lid}: left early')
    it.begin()

    def unknown():
        for q in mods:
            if q in fr.__dict__:
                fr.__dict__[q] = Poison(f'{q} of another iteration')
    unknown()
    if C.choose(2, ('loop', lid)) == 0:
        L = Loop(lid, None, fr)
        L.snap = L.snap0
        v = it.step()
        yield v
        for kind, c, q in L.diff():
            if not (c is fr and q in mods):
                raise Unsupported(f'loop {lid}: {kind} {q} changes')
        it.check()
        raise PathEnd()
    it.end()


def fetch(L, kind, nm, q):
    v = L.find(nm)
    if kind == 'key':
        return keyed(v).get(q, MISSING)
    return v


def weakened(info):
    """Failures of lists may follow from a wrong candidate for a variable, which goes first."""
    d = info.drop - {None}
    keys = {loc for loc in d if loc[0] == 'key' and len(info.locs[loc]) > 2}
    return keys or d


def seg_loop(lid, n, f, fr, mods):
    C = core.C
    key = ('loop', lid, tuple(t[0] for t in C.trace))
    info = C.store.setdefault(key, LoopInfo())
    L = Loop(lid, info, fr)
    L.snap = L.snap0
    c = C.choose(64, ('loop', lid))
    ph = info.plan.get(c)
    if ph is None:
        if info.locs is None:
            ph = 'exit'
        elif c == 1 or info.drop or info.redo:
            for loc in weakened(info):
                info.locs[loc].pop(0)
                if not info.locs[loc]:
                    info.locs[loc] = [PoisonT()]
            if info.drop or not info.redo:
                info.elts.clear()
            info.drop = set()
            info.redo = False
            ph = 'step'
        else:
            ph = 'exit'
        info.plan[c] = ph
    if ph == 'peel':
        C.assume(le(ONE, n))
        if not C.feasible():
            raise core.Infeasible()
        start_facts(info)
        k = len(C.assumed)
        yield f(ZERO)
        generate(L, info, n)
        if C.store.get('learn_first'):
            old = set().union(*[ir.fvB(b) for b in C.assumed[:k]])
            cs = {x for b in C.assumed[k:] for x in (b[1] if b[0] == 'and' else (b,)) if ir.fvB(x) <= old}
            info.first = cs if info.first is None else info.first & cs
        check_facts(info, ONE)
        raise PathEnd()
    if ph == 'step':
        i = V(info.var(c))
        C.inexact = C.__dict__.get('inexact') or '!leaves' in mods and not getattr(info, 'facts', None)
        C.assume(band(ge0(i), lt(i, n)))
        C.__dict__.setdefault('steps', []).append((key, c))
        assume_facts(info, i)
        assume_first(info, i)
        havoc(L, info, i)
        L.snap = snapshot(L.frames)
        C.__dict__.setdefault('loopvars', []).append(i)
        if any(k[0] == 'list' and isinstance(ts[0], tuple) and info.elts.get(k) is None for k, ts in info.locs.items()):
            C.__dict__.setdefault('discover', []).append(info)
        try:
            yield f(i)
        except GeneratorExit:
            if info in C.__dict__.get('discover', ()):
                info.redo = True
            raise
        check_step(L, info, i)
        raise PathEnd()
    # exit
    C.trace[-1][1] = c + 1
    if info.locs is None:
        # no first iteration completes normally
        C.assume(eq(n, ZERO))
        return
    C.assume(ge0(n))
    C.inexact = C.__dict__.get('inexact') or '!leaves' in mods and not getattr(info, 'facts', None)
    assume_facts(info, n)
    assume_first(info, n)
    havoc(L, info, n)
    note_inv(lid, info)


def note_inv(lid, info):
    C = core.C
    C.notes.append((lid, {str(k): repr(v[0]) for k, v in info.locs.items()}))
    for (kind, nm, q), ts in info.locs.items():
        if not isinstance(ts[0], PoisonT):
            C.record(f'loop {lid}: invariant for {nm.split(".", 1)[-1] if q is None else q} holds initially and is preserved', 'discharged', backend='z3', time=0)


def generate(L, info, n):
    """After the first iteration: candidate templates for every changed location."""
    locs = {}
    for kind, v, q in L.diff():
        if isinstance(v, Frame) and v is not L.fr and L.frames.index(v) > L.frames.index(L.fr):
            continue
        loc = L.name(kind, v, q)
        old = L.snap[id(v)][1]
        if kind == 'list':
            k = len(v.s) - len(old)
            if k > 0 and all(same_seg(a, b) for a, b in zip(v.s, old)):
                locs[loc] = [('list', k, False)] + ([('list', k, True)] if not old and k == 1 else []) + [PoisonT()]
            elif k > 0 and all(same_seg(a, b) for a, b in zip(v.s[k:], old)):
                locs[loc] = [('list', k, True), PoisonT()]
            elif k == 0 and all(isinstance(a, El) for a in old + v.s):
                ts = templates(TList.of(old), TList.of(v.s))
                locs[loc] = ts
            else:
                locs[loc] = [PoisonT()]
        elif kind == 'key':
            v0, v1 = old.get(q, MISSING), keyed(v).get(q, MISSING)
            core.C.near = []
            locs[loc] = templates(v0, v1)
            if len(locs[loc]) == 1 and core.C.near:
                # the specified sequence describes the value before the loop but not after one iteration
                t, why, model = core.C.near[0]
                core.C.record(f'loop {L.lid}: invariant {q} = {t} is established by the first iteration', 'unknown', backend='z3', time=0,
                              detail=str(why)[:800], model=model)
        else:
            raise Unsupported(f'loop {L.lid}: {kind} modified in place')
    if info.locs is None:
        info.locs = locs
    else:
        # another path through the first iteration: merge
        for loc, ts in locs.items():
            if loc not in info.locs:
                info.locs[loc] = ts
            else:
                keep = [t for t in info.locs[loc] if isinstance(t, tuple) or isinstance(t, PoisonT) or any(repr(t) == repr(u) for u in ts)]
                info.locs[loc] = keep or [PoisonT()]


def havoc(L, info, i):
    for loc, ts in info.locs.items():
        kind, nm, q = loc
        t = ts[0]
        v = L.find(nm)
        if kind == 'list':
            old = L.snap0[id(v)][1]
            if isinstance(t, tuple):
                lt_ = ListT(list(old), t[1], t[2])
                lt_.elts = info.elts.get(loc)
                v.s[:] = lt_.segs(i)
            elif isinstance(t, PoisonT):
                v.s[:] = [El(Poison('list content not described by the loop invariant'))]
                v.poisoned = True
                v.__class__ = PoisonList
            else:
                v.s[:] = t.at(i, None).s
        else:
            old = L.snap0[id(v)][1]
            d = keyed(v)
            if isinstance(t, PoisonT) and old.get(q, MISSING) is MISSING:
                d.pop(q, None)
                if isinstance(v, Frame):
                    d[q] = Poison(f'{q} after the loop')
                else:
                    raise Unsupported('dictionary grows in a loop')
                continue
            d[q] = t.at(i, None)


class PoisonList(TList):
    def _x(self, *a, **k):
        raise Unsupported('list content not described by the loop invariant')
    __iter__ = __getitem__ = symlen = __len__ = __bool__ = __add__ = append = extend = reverse = insert = _x


def same_value(v, w):
    if type(v) is type(w) and isinstance(v, (tuple, TList, STuple)) and v:
        vs, ws = [[(x.v if isinstance(x, El) else x) for x in (y if isinstance(y, tuple) and not isinstance(y, STuple) else y.s)] for y in (v, w)]
        if not any(isinstance(x, Seg) for x in vs + ws):
            return len(vs) == len(ws) and all(same_value(a, b) for a, b in zip(vs, ws))
    if isinstance(v, (bool, SymBool)) and isinstance(w, (bool, SymBool)):
        return core.C.proved(bor(band(tob(v), tob(w)), band(bnot(tob(v)), bnot(tob(w)))))
    return values_equal(v, w)[0]


def described(v, i, info=None, loc=(), path=()):
    """v, or an equal value that the contract states without the case distinctions of the path"""
    if isinstance(v, tuple) and v and not isinstance(v, STuple):
        w = [described(x, i, info, loc, path + (k,)) for k, x in enumerate(v)]
        if any(x is not y for x, y in zip(v, w)):
            return type(v)(*w) if hasattr(v, '_fields') else tuple(w)
        return v
    if isinstance(v, (TList, STuple)) and all(isinstance(x, El) for x in v.s):
        w = [described(x.v, i, info, loc, path + (k,)) for k, x in enumerate(v.s)]
        if any(x.v is not y for x, y in zip(v.s, w)):
            return TList.of([El(y) for y in w]) if isinstance(v, TList) else core.mk_tuple([El(y) for y in w])
        return v
    if type(v) is dict:
        w = {k: described(x, i, info, loc, path + (k,)) for k, x in v.items()}
        return w if any(w[k] is not v[k] for k in v) else v
    out = info.excluded.get((loc, path), ()) if info else ()
    ts = core.C.store.get('elem_templates', ())
    last = info.used.get((loc, path)) if info else None
    rest = [n for n in range(len(ts)) if n not in out and n != last]
    # the one found on another path first; then all of them, at last with the factors of products in any order
    tries = ([(last, True)] if last is not None and last not in out else []) + [(n, r) for r in (False, True) for n in rest]
    for n, ren in tries:
        w = ts[n](i)
        if isinstance(v, (bool, SymBool)) and isinstance(w, (bool, SymBool)):
            ok = same_value(v, w)
        else:
            ok = (core.isint(v) and core.isint(w) or isinstance(v, SymTensor) and isinstance(w, SymTensor) and v.is_sparse == w.is_sparse) \
                and not isinstance(v, (bool, SymBool)) and (ren or isinstance(v, SymTensor)) and equal_up_to(v, w, ren)
        if ok:
            if info:
                info.used[(loc, path)] = n
            return w
    return v


def equal_up_to(v, w, renaming):
    eqprove.RENAME[0] = renaming
    try:
        return values_equal(v, w)[0]
    finally:
        eqprove.RENAME[0] = True


def exclude(info, loc, v, w, path=()):
    """The contract value chosen for a part of a list element holds on that path only: another one has to be found."""
    if isinstance(v, (tuple, TList, STuple)) and type(v) is type(w):
        vs, ws = [[(x.v if isinstance(x, El) else x) for x in (y if isinstance(y, tuple) and not isinstance(y, STuple) else y.s)] for y in (v, w)]
        return len(vs) == len(ws) and any([exclude(info, loc, a, b, path + (k,)) for k, (a, b) in enumerate(zip(vs, ws))])
    if type(v) is dict and type(w) is dict:
        return set(v) == set(w) and any([exclude(info, loc, v[k], w[k], path + (k,)) for k in v])
    n = info.used.get((loc, path))
    if n is None or same_value(v, w):
        return False
    info.excluded.setdefault((loc, path), set()).add(n)
    return True


def start_facts(info):
    """Auxiliary invariants proposed by the contract: functions of the iteration number."""
    C = core.C
    if getattr(info, 'facts', None) is None:
        info.facts = [f for f in C.store.get('loop_facts', ()) if C.proved(f(ZERO))]


def assume_facts(info, i):
    for f in getattr(info, 'facts', None) or ():
        core.C.assume(f(i))


def assume_first(info, i):
    """Behind the first iteration: what all its completing executions require of the values before the loop."""
    for b in info.first or ():
        core.C.assume(bor(eq(i, ZERO), b))


def check_facts(info, i):
    bad = [f for f in info.facts if not core.C.proved(f(i))]
    if bad:
        info.facts = [f for f in info.facts if f not in bad]
    return bool(bad)


def check_step(L, info, i):
    C = core.C
    if getattr(info, 'facts', None) and check_facts(info, add(i, ONE)):
        info.drop.add(None)
    nxt = add(i, ONE)
    ivar = next(iter(ir.fv(i)))
    changed = {}
    for kind, v, q in L.diff():
        if isinstance(v, Frame) and v is not L.fr and v not in L.frames:
            continue
        nm = L.names.get(id(v))
        if nm is None:
            continue  # created by havoc (list cells etc.)
        changed[(kind, nm, q)] = v
    for loc in changed:
        if loc not in info.locs:
            # unchanged by the first iteration but changed by a later one
            kind, nm, q = loc
            v = L.find(nm)
            if kind == 'list' or kind == 'tensor' or kind == 'native':
                raise Unsupported(f'loop {L.lid}: {kind} changed in a later iteration only')
            old = L.snap0[id(v)][1].get(q, MISSING)
            new = keyed(v).get(q, MISSING)
            if old is not MISSING and new is not MISSING and values_equal(old, new)[0]:
                continue
            extra = [t for f in C.store.get('extra_templates', ()) for t in f(old, old)] if old is not MISSING else []
            info.locs[loc] = [Same(old)] + extra + [PoisonT()] if old is not MISSING else [PoisonT(), PoisonT()]
            info.drop.add(loc)
    for loc, ts in info.locs.items():
        if loc in info.drop:
            continue
        kind, nm, q = loc
        t = ts[0]
        if isinstance(t, PoisonT):
            continue
        v = L.find(nm)
        if kind == 'list' and isinstance(t, tuple):
            old = L.snap[id(v)][1]
            k, pre = t[1], t[2]
            new = v.s[:k] if pre else v.s[len(v.s) - k:]
            rest = v.s[k:] if pre else v.s[:len(v.s) - k]
            if len(v.s) != len(old) + k or not all(same_seg(a, b) for a, b in zip(rest, old)) or not all(isinstance(x, El) for x in new):
                info.drop.add(loc)
                continue
            vals = [(ivar, described(x.v, i, info, (loc, n))) for n, x in enumerate(new)] if info.elts.get(loc) is None or info.elts[loc][0][0] == 'stale' else None
            cur = info.elts.get(loc)
            if cur is None or cur[0][0] == 'stale':
                info.elts[loc] = vals
            else:
                bad = [(n, x.v, deep(w, {var: i})) for n, (x, (var, w)) in enumerate(zip(new, cur))]
                bad = [b for b in bad if not same_value(b[1], b[2])]
                if bad:
                    if any([exclude(info, (loc, n), v_, w_) for n, v_, w_ in bad]):
                        info.elts.pop(loc)
                        info.redo = True
                    else:
                        info.drop.add(loc)
            continue
        new = v if kind == 'list' else keyed(v).get(q, MISSING)
        if new is MISSING or not t.holds(new, nxt, None):
            C.events.append(('dropped', L.lid, loc, repr(t)))
            info.drop.add(loc)
            info.elts.clear()


# ------------------------------------------------------------------ while
class Inv:
    """A loop invariant from a contract: match(loop) -> None or a list of (container, key, function(params) -> value), with parameters."""


def while_(lid, cond, fr, mods):
    C = core.C
    # concrete or decidable conditions first: bounded unrolling is only used when every test is decided without forking
    n = 0
    while True:
        v = cond()
        b = tob(v)
        if b == FALSE:
            return
        if b == TRUE:
            n += 1
            if n > 200:
                raise Unsupported(f'{lid}: unbounded unrolling')
            yield None
            continue
        if C.proved(bnot(b)):
            return
        break
    inv = C.store.get('while_inv', {})
    key = lid.split('#')[0]
    if key in inv:
        yield from inv[key](lid, cond, fr)
        return
    yield from while_auto(lid, cond, fr, mods)


def while_auto(lid, cond, fr, mods):
    """Unknown number of iterations; templates in the iteration number."""
    C = core.C
    key = ('while', lid, tuple(t[0] for t in C.trace))
    info = C.store.setdefault(key, LoopInfo())
    L = Loop(lid, info, fr)
    L.snap = L.snap0
    c = C.choose(64, ('while', lid))
    ph = info.plan.get(c)
    if ph is None:
        if info.locs is None:
            ph = 'exit'
        elif c == 1 or info.drop or info.redo:
            for loc in weakened(info):
                info.locs[loc].pop(0)
                if not info.locs[loc]:
                    info.locs[loc] = [PoisonT()]
            if info.drop or not info.redo:
                info.elts.clear()
            info.drop = set()
            info.redo = False
            ph = 'step'
        else:
            ph = 'exit'
        info.plan[c] = ph
    if ph == 'peel':
        C.assume(tob(cond()))
        if not C.feasible():
            raise core.Infeasible()
        start_facts(info)
        yield None
        generate(L, info, None)
        check_facts(info, ONE)
        raise PathEnd()
    if ph == 'step':
        i = V(info.var(c))
        C.assume(ge0(i))
        C.__dict__.setdefault('steps', []).append((key, c))
        C.inexact = C.__dict__.get('inexact') or not getattr(info, 'facts', None)
        assume_facts(info, i)
        havoc(L, info, i)
        C.assume(tob(cond()))
        L.snap = snapshot(L.frames)
        if any(k[0] == 'list' and isinstance(ts[0], tuple) and info.elts.get(k) is None for k, ts in info.locs.items()):
            C.__dict__.setdefault('discover', []).append(info)
        try:
            yield None
        except GeneratorExit:
            if info in C.__dict__.get('discover', ()):
                info.redo = True
            raise
        check_step(L, info, i)
        raise PathEnd()
    C.trace[-1][1] = c + 1
    if info.locs is None:
        C.assume(bnot(tob(cond())))
        return
    i = V(info.var(c))
    C.assume(ge0(i))
    assume_facts(info, i)
    C.inexact = C.__dict__.get('inexact') or not getattr(info, 'facts', None)
    # the test held before the last iteration
    if C.decide(lt(ZERO, i)):
        havoc(L, info, sub(i, ONE))
        C.assume(tob(cond()))
    havoc(L, info, i)
    C.assume(bnot(tob(cond())))
    note_inv(lid, info)


# ------------------------------------------------------------------ comprehensions
def native_iter(it):
    segs = segments(it)
    if segs is None:
        return it, None
    segs = core.norm_segs(segs)
    if all(isinstance(x, El) for x in segs):
        return [x.v for x in segs], None
    C = core.C
    out = []
    for x in segs:
        if isinstance(x, Seg) and C.proved(eq(x.n, ZERO)):
            continue
        out.append(x)
    if all(isinstance(x, El) for x in out):
        return [x.v for x in out], None
    return None, out


def comp(kind, its, cond, elt):
    if kind == 'gen':
        return GenComp(its, cond, elt)
    return finish_comp(kind, its, cond, elt)


class GenComp:
    """A generator expression; consumed once."""

    def __init__(self, its, cond, elt):
        self.first = its[0]()
        self.its, self.cond, self.elt = its, cond, elt
        self._r = None

    def run(self):
        if self._r is None:
            self._r = finish_comp('list', [lambda: self.first] + list(self.its[1:]), self.cond, self.elt)
        return self._r

    def __iter__(self):
        if not hasattr(self, '_it'):
            if native_iter(self.first)[1] is None and len(self.its) == 1:
                def g():
                    for v in native_iter(self.first)[0]:
                        if self.cond is None or test(self.cond(v)):
                            yield self.elt(v)
                self._it = g()
            else:
                self._it = iter(self.run())
        return self._it

    def __next__(self):
        return next(iter(self))

    def _sym_segments(self):
        return list(self.run().s)

    def _join(self, s):
        if isinstance(self.first, (fseq.Letters, fseq.Word)):
            return self.run()._join(s)
        return s.join(self)


def test(v):
    if isinstance(v, SymBool):
        return core.C.decide(v.b)
    return bool(v)


def finish_comp(kind, its, cond, elt):
    C = core.C
    first = its[0]()
    if isinstance(first, fseq.Product):
        if kind != 'list':
            raise Unsupported('comprehension over a symbolic product')
        return fseq.comprehension(its, first, cond, elt)
    if isinstance(first, (fseq.Letters, fseq.Word)) and kind == 'list' and cond is None and len(its) == 1:
        return fseq.letterwise(first, elt)
    vals, segs = native_iter(first)
    if segs is None:
        out = []

        def rec(k, vs, args):
            for v in vs:
                if k + 1 < len(its):
                    it2, s2 = native_iter(its[k + 1](*args, v))
                    if s2 is not None:
                        raise Unsupported('inner comprehension loop of symbolic length')
                    rec(k + 1, it2, args + (v,))
                elif cond is None or test(cond(*args, v)):
                    out.append(elt(*args, v))
        rec(0, vals, ())
        if kind == 'list':
            return TList.of([El(x) for x in out])
        if kind == 'set':
            return set(out)
        return dict(out)
    if kind != 'list' or len(its) > 1:
        h = C.store.get('comp_handler')
        if h is not None:
            return h(kind, its, segs, cond, elt)
        if kind == 'list':
            return fseq.comprehension(its, first, cond, elt)
        raise Unsupported('comprehension over a symbolic range')
    if cond is not None:
        return fseq.comprehension(its, first, cond, elt)
    out = []
    for x in segs:
        if isinstance(x, El):
            out.append(El(elt(x.v)))
        else:
            # exceptions of the generic element
            if C.choose(2, 'comp') == 0:
                t = V(uvar('t'))
                C.assume(band(ge0(t), lt(t, x.n)))
                if not C.feasible():
                    raise core.Infeasible()
                elt(x.fn(t))
                raise PathEnd()
            out.append(Seg(x.n, lambda t, x=x: elt(x.fn(t))))
    return TList.of(out)
