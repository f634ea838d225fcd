"""Filtered and product enumerations of symbolic length.

An enumeration lists the points q of {q : dom(q) and cond(q)} in some order, once each.  Its
length and the coordinate functions are uninterpreted; the axioms are
  0 <= t < n  =>  dom and cond hold at B(t)          (every listed point belongs to the set)
  dom and cond at a witness  =>  n >= 1
A sum over t whose summand reads t only through B(t) equals the sum over the set (sparse.bind)."""
import core
import ir
from core import Unsupported
from ir import P, K, V, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, scale, le, lt, eq, ge0, bnot, band, bor

ENUMS = {}  # name -> Enum
KEYS = {}


class Enum:
    def __init__(self, name, vars, dom, cond, args):
        self.name, self.vars, self.dom, self.cond, self.args = name, vars, dom, cond, args

    def n(self, args=None):
        return ir.mkuf(self.name + '.n', tuple(args if args is not None else [V(a) for a in self.args]))

    def at(self, j, t, args=None):
        return ir.mkuf(f'{self.name}.{j}', (t,) + tuple(args if args is not None else [V(a) for a in self.args]))

    def member(self, point, args=None):
        s = dict(zip(self.vars, point))
        if args is not None:
            s.update(zip(self.args, args))
        return ir.subst(band(self.dom, self.cond), s)


def reset():
    ENUMS.clear()
    KEYS.clear()


def make(vars, dom, cond):
    """vars: variable names; dom, cond: conditions over them."""
    canon = [f'${j}' for j in range(len(vars))]
    s = {v: V(c) for v, c in zip(vars, canon)}
    dom, cond = ir.subst(dom, s), ir.subst(cond, s)
    key = (tuple(canon), dom, cond)
    e = KEYS.get(key)
    if e is None:
        args = sorted((ir.fvB(dom) | ir.fvB(cond)) - set(canon))
        e = KEYS[key] = Enum(f'en{len(ENUMS)}', canon, dom, cond, args)
        ENUMS[e.name] = e
        for j in range(len(canon)):
            ir.UFAXIOMS[f'{e.name}.{j}'] = lambda t, *a, e=e: axiom(e, t, a)
        ir.UFAXIOMS[e.name + '.n'] = lambda *a, e=e: axiom_n(e, a)
    return e


def axiom(e, t, a):
    pt = [e.at(j, t, a) for j in range(len(e.vars))]
    return [bor(bnot(band(ge0(t), lt(t, e.n(a)))), e.member(pt, a))]


def axiom_n(e, a):
    n = e.n(a)
    out = [ge0(n), bor(bnot(le(ONE, n)), e.member([e.at(j, ZERO, a) for j in range(len(e.vars))], a))]
    for w in witnesses(e.vars, band(e.dom, e.cond)):
        c = ir.subst(e.member(w), dict(zip(e.args, a)))
        out.append(bor(bnot(c), le(ONE, n)))
    return out


def literals(c):
    return [x for x in (c[1] if c[0] == 'and' else (c,)) if x[0] in ('ge0', 'eq0')]


def witnesses(vars, cond, limit=40):
    """Candidate points: coordinates at the bounds that the literals of the condition give them."""
    ls = [x[1] for x in literals(cond)]
    out = []

    def solve(p, v):
        c = p.t.get((('v', v),), 0)
        if c not in (1, -1) or any(v in ir.fv_atom(a) for m in p.t if m != (('v', v),) for a in m):
            return None
        return scale(P({m: k for m, k in p.t.items() if m != (('v', v),)}), -c)

    def rec(todo, s):
        if len(out) >= limit:
            return
        if not todo:
            w = tuple(s[v] for v in vars)
            if w not in out:
                out.append(w)
            return
        for k, v in enumerate(todo):
            rest = todo[:k] + todo[k + 1:]
            seen = []
            for p in ls:
                x = solve(ir.subst(p, s), v)
                if x is not None and not (ir.fv(x) & set(todo)) and x not in seen:
                    seen.append(x)
                    rec(rest, dict(s, **{v: x}))
    rec(list(vars), {})
    return out


class Product:
    """itertools.product of symbolic ranges"""

    def __init__(self, *its):
        self.its = its

    def __iter__(self):
        raise Unsupported('iteration over a symbolic product')


class Letters:
    """The tuple of n letters that stands at position t of itertools.product(alphabet, repeat=n)."""

    def __init__(self, alphabet, n, t):
        self.alphabet, self.n, self.t = tuple(alphabet), n, t

    def _join(self, s):
        if s != '' or any(type(c) is not str or len(c) != 1 for c in self.alphabet):
            raise Unsupported('join of a symbolic product')
        return Word(self.alphabet, self.n, self.t)

    def word_parts(self):
        return (self.alphabet, self.n, self.t)

    def deep_subst(self, s):
        return Letters(self.alphabet, ir.subst(self.n, s), ir.subst(self.t, s))

    def __iter__(self):
        raise Unsupported('letters of a symbolic product')


class Word(str):
    """Its concatenation."""

    def __new__(cls, alphabet, n, t):
        s = str.__new__(cls, '<word>')
        s.alphabet, s.n, s.t = tuple(alphabet), n, t
        return s

    def symlen(self):
        return core.mk(self.n)

    def word_parts(self):
        return (self.alphabet, self.n, self.t)

    def deep_subst(self, s):
        return Word(self.alphabet, ir.subst(self.n, s), ir.subst(self.t, s))


def forbid(cls, keep=()):
    """operations of str that would see the placeholder"""
    def mk_(nm):
        def f(self, *a, **k):
            raise Unsupported(f'{nm} of a symbolic word')
        return f
    ops = ['__iter__', '__contains__', '__mul__', '__rmul__', '__lt__', '__le__', '__gt__', '__ge__', '__mod__', '__len__', '__eq__', '__ne__', '__getitem__', '__add__', '__hash__', '__bool__']
    for nm in [m for m in dir(str) if not m.startswith('_')] + ops:
        if nm not in cls.__dict__ and nm not in keep:
            setattr(cls, nm, mk_(nm))


forbid(Word)


class MWord(str):
    """The tuple of letters at position t of product(alphabet, repeat=n), every letter replaced by its image (one character each)."""

    def __new__(cls, alphabet, n, t, image):
        s = str.__new__(cls, '<image>')
        s.alphabet, s.n, s.t, s.image = tuple(alphabet), n, t, tuple(image)
        return s

    def symlen(self):
        return core.mk(self.n)

    def letters(self):
        return set(self.image)

    def word_parts(self):
        return (self.alphabet, self.n, self.t, self.image)

    def deep_subst(self, s):
        return MWord(self.alphabet, ir.subst(self.n, s), ir.subst(self.t, s), self.image)


forbid(MWord)


class MLetters:
    """[f(c) for c in letters]"""

    def __init__(self, src, image):
        self.src, self.image = src, image

    def _join(self, s):
        if s != '' or any(type(c) is not str or len(c) != 1 for c in self.image):
            raise Unsupported('join of the images of letters')
        return MWord(self.src.alphabet, self.src.n, self.src.t, self.image)

    def __iter__(self):
        raise Unsupported('letters of a symbolic product')


def letterwise(src, elt):
    return MLetters(src, [elt(c) for c in src.alphabet])


class LogDict:
    """An empty dictionary inside one arbitrary iteration: stores are recorded, nothing is read."""

    def __init__(self, log, path=()):
        self.log, self.path = log, path

    def __setitem__(self, k, v):
        self.log.append((self.path + (k,), v))

    def setdefault(self, k, d=None):
        if type(d) is not dict or d:
            raise Unsupported('default entry of a symbolic dictionary')
        return LogDict(self.log, self.path + (k,))

    def _no(self, *a, **k):
        raise Unsupported('reading a dictionary that a loop fills')
    __getitem__ = __contains__ = __iter__ = __len__ = __delitem__ = __eq__ = __bool__ = _no
    get = keys = values = items = pop = popitem = update = clear = copy = _no
    __hash__ = None


def letters_of(p):
    """(length, possible letters) of a word"""
    if type(p) is str:
        return K(len(p)), set(p)
    if hasattr(p, 'letters') and hasattr(p, 'symlen'):
        return core.top(p.symlen()), p.letters()
    raise Unsupported('a key of another kind')


class WordMap:
    """The dictionary {image1(w): {image2(w): w}} over all words w of the alphabet of length n; pins: outer keys already chosen."""

    def __init__(self, alphabet, n, images, pins=()):
        self.alphabet, self.n, self.images, self.pins = alphabet, n, images, pins
        if len(set(zip(*images))) != len(alphabet):
            raise Unsupported('the keys do not determine the entry')

    def word_parts(self):
        return (self.alphabet, self.n, self.images, self.pins)

    def deep_subst(self, s):
        import vc
        return WordMap(self.alphabet, ir.subst(self.n, s), self.images, tuple(vc.deep(p, s) for p in self.pins))

    def __contains__(self, p):
        n, ls = letters_of(p)
        if not core.C.proved(eq(n, self.n)) and not core.C.decide(eq(n, self.n)):
            return False
        k = len(self.pins)
        have = {im[:k + 1] for im in zip(*self.images)}
        import itertools
        dom = [letters_of(q)[1] for q in self.pins] + [ls]
        if core.C.proved(eq(n, ZERO)):
            return True
        if all(c in have for c in itertools.product(*dom)):
            return True
        raise Unsupported('a key that may be missing')

    def __getitem__(self, p):
        if p not in self:
            raise KeyError(p)
        pins = self.pins + (p,)
        if len(pins) < len(self.images):
            return WordMap(self.alphabet, self.n, self.images, pins)
        return Pinned(self.alphabet, self.n, self.images, pins)

    def _no(self, *a, **k):
        raise Unsupported('operation on a symbolic dictionary')
    __iter__ = __len__ = __setitem__ = __eq__ = __bool__ = _no
    get = keys = values = items = pop = setdefault = update = _no
    __hash__ = None


class Pinned:
    """The letters w with image_k(w) = pins[k] for every k."""

    def __init__(self, alphabet, n, images, pins):
        self.alphabet, self.n, self.images, self.pins = alphabet, n, images, pins

    def word_parts(self):
        return (self.alphabet, self.n, self.images, self.pins)

    def deep_subst(self, s):
        import vc
        return Pinned(self.alphabet, ir.subst(self.n, s), self.images, tuple(vc.deep(p, s) for p in self.pins))

    def _join(self, s):
        if s != '' or any(type(c) is not str or len(c) != 1 for c in self.alphabet):
            raise Unsupported('join of a symbolic product')
        return PWord(self)

    def __iter__(self):
        raise Unsupported('letters of a symbolic product')


class PWord(str):
    def __new__(cls, w):
        s = str.__new__(cls, '<pinned>')
        s.w = w
        return s

    def symlen(self):
        return core.mk(self.w.n)

    def word_parts(self):
        return (self.w,)

    def deep_subst(self, s):
        return PWord(self.w.deep_subst(s))


forbid(PWord)


def words_in(v):
    if isinstance(v, (Letters, MWord, Word)):
        return True
    return isinstance(v, tuple) and any(words_in(x) for x in v)


def dict_loop(lid, n, f, fr, mods):
    """A loop over all words of a level whose only effect is one store per word into a dictionary that is empty before it; None if it is not one."""
    import sys
    import vc
    C = core.C
    qs = [q for q, v in fr.__dict__.items() if type(v) is dict and not v]
    if len(qs) != 1 or sys.getrefcount(fr.__dict__[qs[0]]) > 2 or '!leaves' in mods:
        return None
    q = qs[0]

    def run():
        key = ('dictloop', lid)
        for m in mods:
            if m in fr.__dict__ and m != q:
                fr.__dict__[m] = vc.Poison(f'{m} of another iteration')
        if C.choose(2, ('loop', lid)) == 0:
            log = []
            fr.__dict__[q] = LogDict(log)
            L = vc.Loop(lid, None, fr)
            L.snap = L.snap0
            t = vc.uvar('t')
            C.assume(band(ge0(V(t)), lt(V(t), n)))
            yield f(V(t))
            for kind, c, nm in L.diff():
                if not (c is fr and nm in mods and nm != q):
                    raise Unsupported(f'loop {lid}: {kind} {nm} changes')
            C.store.setdefault(key, []).append((t, n, list(log)))
            raise core.PathEnd()
        logs = C.store.get(key, [])
        if len(logs) != 1 or len(logs[0][2]) != 1:
            raise Unsupported(f'loop {lid}: not one store per element')
        t, n0, [(ks, v)] = logs[0]
        if not (isinstance(v, Letters) and v.t == V(t) and all(isinstance(k, MWord) and k.t == V(t) and k.n == v.n and k.alphabet == v.alphabet for k in ks)):
            raise Unsupported(f'loop {lid}: entries are not words with letterwise keys')
        k = len(v.alphabet)
        if not C.proved(eq(n, ir.mkuf(f'pow{k}', (v.n,)))):
            raise Unsupported(f'loop {lid}: not all words of a length')
        fr.__dict__[q] = WordMap(v.alphabet, v.n, tuple(x.image for x in ks))
    return run()


def power(its, n):
    """itertools.product(alphabet, repeat=n): every tuple of n letters once, in lexicographic order"""
    if len(its) != 1:
        raise Unsupported('repeated product of several sequences')
    import vc
    vals, segs = vc.native_iter(its[0])
    if segs is not None or isinstance(vals, (set, dict)):
        raise Unsupported('repeated product')
    vals = list(vals)
    n = core.top(n)
    if not core.C.proved(ge0(n)):
        raise Unsupported('negative repetition')
    k = len(vals)
    count = ir.mkuf('pow2', (n,)) if k == 2 else ir.mkuf(f'pow{k}', (n,))
    return core.SymIter([core.Seg(count, lambda t: Letters(vals, n, t))])


def product(*its, repeat=1):
    import itertools
    import vc
    ls = []
    if isinstance(repeat, core.SymInt):
        return power(its, repeat)
    for it in its:
        vals, segs = vc.native_iter(it)
        if segs is not None:
            return Product(*(list(its) * repeat))
        ls.append(list(vals))
    return itertools.product(*ls, repeat=repeat)


def generic(it):
    """(new variables, domain, value) of one generic element of an iterable, None if it is not one uniform segment"""
    import vc
    if isinstance(it, Product):
        vs, dom, vals = [], TRUE, []
        for x in it.its:
            g = generic(x)
            if g is None:
                return None
            vs += g[0]
            dom = band(dom, g[1])
            vals.append(g[2])
        return vs, dom, tuple(vals)
    vals, segs = vc.native_iter(it)
    if segs is None or len(segs) != 1 or isinstance(segs[0], core.El):
        return None
    v = vc.uvar('q')
    n = segs[0].n
    dom = band(ge0(V(v)), lt(V(v), n))
    return [v], dom, vc.with_assume(dom, lambda: segs[0].fn(V(v)))


def comprehension(its, first, cond, elt):
    """The list built by a comprehension with a filter or several symbolic loops."""
    import vc
    C = core.C
    args, vs, dom = (), [], TRUE
    state = {'it': first}

    def level(k):
        nonlocal args, vs, dom
        it = state['it'] if k == 0 else its[k](*args)
        g = generic(it)
        if g is None:
            raise Unsupported('comprehension over an irregular symbolic iterable')
        vs, dom, args = vs + g[0], band(dom, g[1]), args + (g[2],)

        def rest():
            if k + 1 < len(its):
                return level(k + 1)
            c = TRUE
            if cond is not None:
                C.formula_mode += 1
                try:
                    c = cond(*args)
                finally:
                    C.formula_mode -= 1
                if isinstance(c, core.SymInt):
                    c = c != 0
                c = core.tob(c)

            return c, vc.with_assume(c, lambda: elt(*args)) if c != FALSE else None
        return vc.with_assume(g[1], rest)
    # may the element raise?  explored on a path of its own
    if C.choose(2, 'comp') == 0:
        state2 = explore_element(its, first, cond, elt)
        raise core.PathEnd()
    C.nofork = getattr(C, 'nofork', 0) + 1
    try:
        c, val = level(0)
    finally:
        C.nofork -= 1
    if c == FALSE:
        return core.TList.of([])
    if c == TRUE and len(its) == 1 and not isinstance(first, Product):  # nothing is left out
        n = vc.native_iter(first)[1][0].n
        return core.TList.of([core.Seg(n, lambda t: vc.deep(val, {vs[0]: t}))])
    e = make(vs, dom, c)

    def fn(t):
        return vc.deep(val, {v: e.at(j, t) for j, v in enumerate(vs)})
    return core.TList.of([core.Seg(e.n(), fn)])


def explore_element(its, first, cond, elt):
    C = core.C
    args = ()
    for k in range(len(its)):
        g = generic(first if k == 0 else its[k](*args))
        if g is None:
            raise Unsupported('comprehension over an irregular symbolic iterable')
        C.assume(g[1])
        args += (g[2],)
    if not C.feasible():
        raise core.Infeasible()
    import vc
    if cond is None or vc.test(cond(*args)):
        elt(*args)


def uniform(seg):
    """The elements of a segment as one generic value, evaluated inside its range and without case distinctions."""
    import vc
    C = core.C
    t = vc.uvar('u')
    C.nofork = getattr(C, 'nofork', 0) + 1
    try:
        val = vc.with_assume(band(ge0(V(t)), lt(V(t), seg.n)), lambda: seg.fn(V(t)))
    finally:
        C.nofork -= 1
    return val, lambda i: vc.deep(val, {t: i})
