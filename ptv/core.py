"""Path exploration, proof obligations and symbolic Python values."""
import time
import builtins
from fractions import Fraction

import ir
import z3
from ir import P, K, V, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, scale, ge0, le, lt, eq, bnot, band, bor, ite


class Unsupported(BaseException):
    """The code uses a construct outside the verified subset."""


class LibTypeError(TypeError):
    """A TypeError that the library documents."""


class PathEnd(BaseException):
    """The current path is complete (cut at a loop head)."""


class Infeasible(PathEnd):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.unknown = 0


STATS = Stats()
TIMEOUT = 8000


class Ctx:
    def __init__(self, script=(), store=None):
        self.script = list(script)
        self.pos = 0
        self.trace = []  # [choice, number of alternatives, label]
        self.solver = z3.Solver()
        self.solver.set('timeout', TIMEOUT)
        self.assumed = []
        self.ax = set()
        self.scales = {}
        self.fresh_n = {}
        self.store = store if store is not None else {}
        self.formula_mode = 0
        self.obligations = []
        self.notes = []
        self.last_model = None
        self._memo = {}
        self.events = []
        self.frozen_hits = []
        self.depth = 0
        self.ghosts = {}
        self.facts = []  # functions index -> list of conditions, instantiated on demand

    # -- names
    def fresh(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return f'{base}!{n}'

    def fint(self, base):
        return V(self.fresh(base))

    # -- axioms of uninterpreted functions
    def _axioms(self, x):
        for a in ir.atoms_of(x):
            if a in self.ax:
                continue
            self.ax.add(a)
            if a[0] == 'mono':
                fs = [ir.atom(y) for y in a[1]]
                # split in (first, rest)
                m = P({a[1]: 1})
                pos = band(*[ge0(sub(f, ONE)) for f in fs])
                conds = [bor(bnot(pos), band(*[le(f, m) for f in fs]))]
                nn = band(*[ge0(f) for f in fs])
                conds.append(bor(bnot(nn), ge0(m)))
                for f in fs:
                    conds.append(bor(bnot(eq(f, ZERO)), eq(m, ZERO)))
                if len(fs) == 2:
                    for f, g in ((fs[0], fs[1]), (fs[1], fs[0])):
                        conds.append(bor(bnot(eq(f, ONE)), eq(m, g)))
            elif a[0] == 'uf':
                f = ir.UFAXIOMS.get(a[1])
                conds = f(*a[2]) if f else []
                if a[1] in ('flog2', 'nlog2'):  # floor(log2(n / b)) grows with n and falls with b
                    (n0, b0), t0 = a[2], ir.atom(a)
                    for o in self.ax:
                        if o[0] == 'uf' and o[1] == a[1] and o is not a and o != a:
                            (n1, b1), t1 = o[2], ir.atom(o)
                            lo, hi = (t0, t1) if a[1] == 'flog2' else (t1, t0)
                            conds.append(bor(bnot(band(le(n0, n1), le(b1, b0))), le(lo, hi)))
                            conds.append(bor(bnot(band(le(n1, n0), le(b0, b1))), le(hi, lo)))
            elif a[0] == 'div':
                conds = self._div_axioms(a)
            else:
                conds = []
            if a[0] == 'mono':
                for s in set(a[1]) & set(self.scales):
                    conds += self._scaled(s, a[1])
            for c in conds:
                self._axioms(c)
                self.solver.add(ir.z3B(c))

    def _div_axioms(self, a):
        """Floor division by a positive symbolic size s, and monotonicity of the products with s."""
        p, d = a[1], a[2]
        q = ir.atom(a)
        m = mul(d, q)
        out = [bor(bnot(le(ONE, d)), band(le(m, p), lt(p, add(m, d))))]
        out.append(bor(bnot(le(ONE, d)), band(bor(ge0(q), le(add(m, d), ZERO)), bor(lt(q, ONE), le(d, m)))))
        if len(d.t) == 1 and list(d.t.values()) == [1] and len(next(iter(d.t))) == 1:
            out += self._scale(next(iter(d.t))[0])
        return out

    def scale(self, p):
        """Products with the positive size p grow with the other factor (axioms from now on)."""
        if len(p.t) == 1 and list(p.t.values()) == [1] and len(next(iter(p.t))) == 1:
            for c in self._scale(next(iter(p.t))[0]):
                self._axioms(c)
                self.solver.add(ir.z3B(c))
            self._memo.clear()

    def _scale(self, s):
        out = []
        if s not in self.scales:
            self.scales[s] = [ZERO, ONE]
            for o in list(self.ax):
                if o[0] == 'mono' and s in o[1]:
                    out += self._scaled(s, o[1])
        return out

    def _scaled(self, s, m):
        r = list(m)
        r.remove(s)
        x = P({tuple(r): 1})
        xs = self.scales[s]
        if x in xs:
            return []
        out = []
        f = ir.atom(s)
        for y in xs:
            for u, v in ((x, y), (y, x)):
                out.append(bor(bnot(band(le(ONE, f), lt(u, v))), le(add(mul(f, u), f), mul(f, v))))
        xs.append(x)
        return out

    def assume(self, b):
        if b == TRUE:
            return
        if b == FALSE:
            raise Infeasible()
        self._axioms(b)
        self.assumed.append(b)
        self.solver.add(ir.z3B(b))
        self._memo.clear()

    def check(self, *bs):
        """sat / unsat / unknown of path and bs."""
        bs = band(*bs)
        if bs == FALSE:
            return 'unsat'
        r = self._memo.get(bs)
        if r is not None:
            return r
        self._axioms(bs)
        t = time.time()
        STATS.queries += 1
        r = self.solver.check(ir.z3B(bs)) if False else None
        self.solver.push()
        try:
            self.solver.add(ir.z3B(bs))
            r = str(self.solver.check())
            if r == 'sat':
                self.last_model = self.solver.model()
        finally:
            self.solver.pop()
        STATS.solver_s += time.time() - t
        if r == 'unknown':
            STATS.unknown += 1
        self._memo[bs] = r
        return r

    def check_z3(self, f):
        """check path and a raw z3 formula."""
        t = time.time()
        STATS.queries += 1
        self.solver.push()
        try:
            self.solver.add(f)
            r = str(self.solver.check())
            if r == 'sat':
                self.last_model = self.solver.model()
        finally:
            self.solver.pop()
        STATS.solver_s += time.time() - t
        return r

    def proved(self, b):
        return b == TRUE or self.check(bnot(b)) == 'unsat'

    def feasible(self, b=TRUE):
        return self.check(b) != 'unsat'

    def choose(self, n, label=''):
        if getattr(self, 'nofork', 0):
            raise Unsupported('case distinction inside the element of an enumeration')
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
        self.pos += 1
        self.trace.append([c, n, label])
        return c

    def decide(self, b):
        if b == TRUE:
            return True
        if b == FALSE:
            return False
        t = self.check(b) != 'unsat'
        f = self.check(bnot(b)) != 'unsat'
        if t and not f:
            return True
        if f and not t:
            return False
        if not t and not f:
            raise Infeasible()
        c = self.choose(2, b)
        if c == 0:
            self.assume(b)
            return True
        self.assume(bnot(b))
        return False

    def model_dict(self):
        m = self.last_model
        if m is None:
            return {}
        out = {}
        for d in m.decls():
            if d.arity() == 0 and '!' not in d.name() and not d.name().startswith('M<'):
                try:
                    out[d.name()] = m[d].as_long()
                except Exception:  # noqa: BLE001
                    out[d.name()] = str(m[d])
        return out

    def oblige(self, name, b, detail=None):
        """A proof obligation: b holds on this path."""
        t = time.time()
        if b == TRUE:
            st = 'unsat'
        else:
            st = self.check(bnot(b))
        o = dict(name=name, status={'unsat': 'discharged', 'sat': self.refuted()}.get(st, 'unknown'), backend='z3', time=round(time.time() - t, 4))
        if st == 'sat':
            o['model'] = self.model_dict()
        if detail and st != 'unsat':
            o['detail'] = str(detail)
        self.obligations.append(o)
        return st == 'unsat'

    def refuted(self):
        """The status of a satisfiable negation: on a path through a loop whose earlier iterations are not fully described the counter-model
        may be unreachable, so the obligation is not discharged but not refuted either."""
        return 'unknown' if self.__dict__.get('inexact') else 'refuted'

    def record(self, name, status, **kw):
        if status == 'refuted':
            status = self.refuted()
        self.obligations.append(dict(name=name, status=status, **kw))


C = None


def ctx():
    return C


def set_ctx(c):
    global C
    C = c


MAXPATHS = 4000


def explore(fn, store=None, deadline=None, maxpaths=MAXPATHS):
    """Run fn() on every feasible path. Yields (outcome kind, value, ctx)."""
    script = []
    store = {} if store is None else store
    n = 0
    while True:
        c = Ctx(script, store)
        set_ctx(c)
        STATS.paths += 1
        n += 1
        if n > maxpaths or (deadline and time.time() > deadline):
            raise Unsupported('path budget exceeded')
        try:
            v = fn()
            out = ('return', v)
        except Infeasible:
            out = ('infeasible', None)
        except PathEnd:
            out = ('end', None)
        except Unsupported:
            # the pass over the loop body that collects list elements: run again once they are known
            if not c.__dict__.get('discover') or all(i.tries > 40 for i in c.discover):
                raise
            for i in c.discover:
                i.redo = True
                i.tries += 1
            out = ('end', None)
        yield out[0], out[1], c
        set_ctx(None)
        tr = c.trace
        while tr and tr[-1][0] + 1 >= tr[-1][1]:
            tr.pop()
        if not tr:
            return
        script = [t[0] for t in tr]
        script[-1] += 1


# ------------------------------------------------------------------ ints
def mk(p):
    c = p.const()
    return c if c is not None else SymInt(p)


def top(x):
    """Python value -> P."""
    if isinstance(x, SymInt):
        return x.p
    if isinstance(x, P):
        return x
    if isinstance(x, SymBool):
        return ite(x.b, ONE, ZERO)
    if isinstance(x, bool):
        return K(int(x))
    if isinstance(x, int):
        return K(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return K(x.numerator)
    if hasattr(x, '__index__'):
        return K(x.__index__())
    raise Unsupported(f'integer expected, got {type(x).__name__}')


def isint(x):
    return isinstance(x, (int, SymInt)) and not isinstance(x, bool) or isinstance(x, SymBool)


class SymInt:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return repr(self.p)

    def __hash__(self):
        raise Unsupported('hash of a symbolic integer')

    def _b(self, o, f):
        if isinstance(o, (int, SymInt, SymBool)):
            return f(self.p, top(o))
        if isinstance(o, Fraction) and o.denominator == 1:
            return f(self.p, K(o.numerator))
        return NotImplemented

    def __add__(self, o):
        r = self._b(o, add)
        return r if r is NotImplemented else mk(r)
    __radd__ = __add__

    def __sub__(self, o):
        r = self._b(o, sub)
        return r if r is NotImplemented else mk(r)

    def __rsub__(self, o):
        r = self._b(o, lambda a, b: sub(b, a))
        return r if r is NotImplemented else mk(r)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, TList)):
            return NotImplemented
        r = self._b(o, mul)
        return r if r is NotImplemented else mk(r)
    __rmul__ = __mul__

    def __neg__(self):
        return mk(neg(self.p))

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if C.decide(lt(self.p, ZERO)) else self

    def __floordiv__(self, o):
        return _fdiv(self.p, top(o))

    def __rfloordiv__(self, o):
        return _fdiv(top(o), self.p)

    def __mod__(self, o):
        q = top(o)
        _fdiv(self.p, q)
        return mk(ir.mod(self.p, q))

    def __rmod__(self, o):
        q = self.p
        _fdiv(top(o), q)
        return mk(ir.mod(top(o), q))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if isinstance(o, SymFloat):
            return NotImplemented
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        return ratio(self.p, top(o))

    def __rtruediv__(self, o):
        return ratio(top(o), self.p)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o < 6:
            r = ONE
            for _ in range(o):
                r = mul(r, self.p)
            return mk(r)
        return NotImplemented

    def __rpow__(self, o):
        if o == 2 and isinstance(o, int):
            if not C.proved(ge0(self.p)):
                raise Unsupported('2 ** n with a possibly negative n')
            return mk(ir.mkuf('pow2', (self.p,)))
        return NotImplemented

    def __lt__(self, o):
        return _cmp(self, o, lt)

    def __le__(self, o):
        return _cmp(self, o, le)

    def __gt__(self, o):
        return _cmp(self, o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return _cmp(self, o, lambda a, b: le(b, a))

    def __eq__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return False
        return mkb(eq(self.p, top(o)))

    def __ne__(self, o):
        if not isinstance(o, (int, SymInt, SymBool)):
            return True
        return mkb(bnot(eq(self.p, top(o))))

    def __bool__(self):
        return C.decide(bnot(eq(self.p, ZERO)))

    def __int__(self):
        return self  # only through the overridden builtin

    def __and__(self, o):
        if o == 1 and isinstance(o, int):
            return self % 2
        raise Unsupported('bit operation on a symbolic integer')
    __rand__ = __and__

    def __rshift__(self, o):
        return self // (2 ** o)

    def __lshift__(self, o):
        return self * (2 ** o)

    def bit_length(self):
        raise Unsupported('bit_length')


def _cmp(a, o, f):
    if isinstance(o, (int, SymInt, SymBool)):
        return mkb(f(a.p, top(o)))
    if isinstance(o, float) and o in (float('inf'), float('-inf')):
        return mkb(f(ZERO, ONE) if o > 0 else f(ONE, ZERO))
    if isinstance(o, float) and o == int(o):
        return mkb(f(a.p, K(int(o))))
    return NotImplemented


def _fdiv(a, b):
    c = b.const()
    if c is None:
        if ir.monic_div(a, b) is not None:
            return mk(ir.monic_div(a, b))
        if C.decide(eq(b, ZERO)):
            raise ZeroDivisionError('integer division by zero')
        if C.decide(lt(b, ZERO)):
            raise Unsupported('division by a negative symbolic integer')
        return mk(ir.div(a, b))
    if c == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if c < 0:
        return mk(ir.div(neg(a), K(-c)))
    return mk(ir.div(a, b))


def mkb(b):
    if b == TRUE:
        return True
    if b == FALSE:
        return False
    return SymBool(b)


def tob(x):
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, SymInt):
        return bnot(eq(x.p, ZERO))
    return TRUE if x else FALSE


class SymBool:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return f'<bool {self.b}>'

    def __bool__(self):
        if C.formula_mode:
            raise Unsupported('branch inside a formula')
        return C.decide(self.b)

    def __and__(self, o):
        return mkb(band(self.b, tob(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(bor(self.b, tob(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkb(bnot(self.b))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            b = tob(o)
            return mkb(bor(band(self.b, b), band(bnot(self.b), bnot(b))))
        if isinstance(o, (int, SymInt)):
            return mkb(eq(top(self), top(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkb(bnot(tob(r)))

    def __hash__(self):
        raise Unsupported('hash of a symbolic bool')

    def __add__(self, o):
        return mk(add(top(self), top(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return mk(sub(top(self), top(o)))

    def __rsub__(self, o):
        return mk(sub(top(o), top(self)))

    def __mul__(self, o):
        return mk(mul(top(self), top(o)))
    __rmul__ = __mul__


# ------------------------------------------------------------------ rationals / logs (only for level formulas)
class SymFloat:
    """An exact real: a quotient of integers, or log2 of one, or a minimum of such."""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return f'{self.kind}{self.args}'

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def __bool__(self):
        raise Unsupported('truth of a symbolic float')

    def _u(self, *a):
        raise Unsupported('arithmetic on a symbolic float')

    def _cmp(self, o, f):
        if self.kind == 'ratio':
            a, b = self.args
            if isinstance(o, (int, SymInt)):
                return mkb(f(a, mul(b, top(o))))
            if isinstance(o, SymFloat) and o.kind == 'ratio':
                return mkb(f(mul(a, o.args[1]), mul(o.args[0], b)))
        raise Unsupported('comparison of a symbolic float')

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        return self._cmp(o, eq)

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = _u

    def __truediv__(self, o):
        if self.kind == 'ratio' and isinstance(o, (int, SymInt)):
            return ratio(self.args[0], mul(self.args[1], top(o)))
        raise Unsupported('division of a symbolic float')


def ratio(a, b):
    cb = b.const()
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError('division by zero')
        if a.const() is not None:
            v = Fraction(a.const(), cb)
            return float(v)
        if all(c % cb == 0 for c in a.t.values()):
            return SymFloat('ratio', (P({m: c // cb for m, c in a.t.items()}), ONE))
        if cb < 0:
            a, b = neg(a), neg(b)
    else:
        if C.decide(le(b, ZERO)):
            if C.decide(eq(b, ZERO)):
                raise ZeroDivisionError('division by zero')
            raise Unsupported('negative symbolic divisor')
        q = ir.monic_div(a, b)
        if q is not None:
            return SymFloat('ratio', (q, ONE))
    return SymFloat('ratio', (a, b))


def sym_int(x=0, *a):
    if isinstance(x, (SymInt, SymBool)):
        return mk(top(x))
    if isinstance(x, SymFloat):
        if x.kind == 'ratio':
            a_, b_ = x.args
            # truncation towards zero
            if C.decide(ge0(a_)):
                return _fdiv(a_, b_)
            return -_fdiv(neg(a_), b_)
        if x.kind == 'log2':
            a_, b_ = x.args
            if not C.proved(le(P_ONE, b_)):
                raise Unsupported('log2 of a ratio with a possibly non-positive denominator')
            # a/b >= 1: floor(log2(a/b)); below: truncation towards zero of a negative number
            return mk(ir.ite(le(b_, a_), ir.mkuf('flog2', (a_, b_)), neg(ir.mkuf('nlog2', (a_, b_)))))
        if x.kind == 'min':
            # truncation is monotone
            r = sym_int(x.args[0])
            for y in x.args[1:]:
                r = sym_min(r, sym_int(y))
            return r
        raise Unsupported('int of ' + x.kind)
    if isinstance(x, SymInt):
        return x
    if hasattr(x, '_item_int'):
        return x._item_int()
    return builtins.int(x, *a)


def _ax_pow2(k):
    p = ir.mkuf('pow2', (k,))
    return [bor(lt(k, ZERO), band(le(ONE, p), lt(k, p)))]


def _ax_flog2(a, b):
    # floor(log2(a/b)) for a >= b >= 1
    t = ir.atom(('uf', 'flog2', (a, b)))
    return [bor(lt(a, b), ge0(t)), bor(le(scale(b, 2), a), lt(a, b), eq(t, ir.ZERO)), bor(lt(a, scale(b, 2)), le(ir.ONE, t))]


def _ax_nlog2(a, b):
    # minus the truncation of a negative logarithm
    t = ir.atom(('uf', 'nlog2', (a, b)))
    return [ge0(t)]


P_ONE = ir.ONE
ir.UFAXIOMS['pow2'] = _ax_pow2
ir.UFAXIOMS['flog2'] = _ax_flog2
ir.UFAXIOMS['nlog2'] = _ax_nlog2


def sym_min(*xs, key=None, default=None):
    xs = list(xs[0]) if len(xs) == 1 else list(xs)
    if not xs:
        raise ValueError('min() arg is an empty sequence')
    if any(isinstance(x, SymFloat) and x.kind in ('log2', 'min') for x in xs):
        out = []
        for x in xs:
            out.extend(x.args if isinstance(x, SymFloat) and x.kind == 'min' else [x])
        return SymFloat('min', tuple(out))
    if not any(isinstance(x, (SymInt, SymBool, SymFloat)) for x in xs):
        return builtins.min(xs, **({} if key is None else dict(key=key)))
    if any(isinstance(x, SymFloat) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            if C.decide(tob(x < r)):
                r = x
        return r
    r = top(xs[0])
    for x in xs[1:]:
        x = top(x)
        if C.proved(le(r, x)):
            continue
        if C.proved(le(x, r)):
            r = x
            continue
        r = ite(le(r, x), r, x)
    return mk(r)


def sym_max(*xs, key=None, default=None):
    xs = list(xs[0]) if len(xs) == 1 else list(xs)
    if not any(isinstance(x, (SymInt, SymBool, SymFloat)) for x in xs):
        if not xs and default is not None:
            return default
        return builtins.max(xs, **({} if key is None else dict(key=key)))
    if any(isinstance(x, SymFloat) for x in xs):
        raise Unsupported('max of symbolic floats')
    r = top(xs[0])
    for x in xs[1:]:
        x = top(x)
        if C.proved(le(x, r)):
            continue
        if C.proved(le(r, x)):
            r = x
            continue
        r = ite(le(x, r), r, x)
    return mk(r)


# ------------------------------------------------------------------ ranges and lists
class SRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def count(self):
        a, b, s = top(self.a), top(self.b), self.s
        if not isinstance(s, int):
            s = top(s)
            if s.const() is None:
                if not C.proved(le(ONE, s)):
                    raise Unsupported('range with a symbolic step')
                n = ir.div(add(sub(b, a), sub(s, ONE)), s)
                return sym_nn(n)
            s = s.const()
        if s == 0:
            raise ValueError('range() arg 3 must not be zero')
        if s > 0:
            n = ir.div(add(sub(b, a), K(s - 1)), K(s))
        else:
            n = ir.div(add(sub(a, b), K(-s - 1)), K(-s))
        return sym_nn(n)

    def item(self, i):
        return mk(add(top(self.a), mul(top(self.s), i)))

    def __iter__(self):
        n = self.count().const()
        if n is None:
            raise Unsupported('iteration over a symbolic range')
        for i in range(n):
            yield self.item(K(i))

    def contains(self, x):
        x = top(x)
        s = self.s
        if not isinstance(s, int) or s not in (1, -1):
            s = top(s)
            lo = le(top(self.a), x)
            hi = lt(x, top(self.b))
            q = ir.mod(sub(x, top(self.a)), s)
            return mkb(band(lo, hi, eq(q, ZERO)))
        if s == 1:
            return mkb(band(le(top(self.a), x), lt(x, top(self.b))))
        return mkb(band(le(x, top(self.a)), lt(top(self.b), x)))

    def __contains__(self, x):
        return bool(self.contains(x))

    def __len__(self):
        n = self.count().const()
        if n is None:
            raise Unsupported('len of a symbolic range')
        return n

    def symlen(self):
        return mk(self.count())

    def __reversed__(self):
        n = self.count()
        return SRange(self.item(sub(n, ONE)), mk(sub(top(self.a), top(self.s))), mk(neg(top(self.s))))

    def __getitem__(self, i):
        return as_tlist(self)[i]


def sym_nn(n):
    """max(n, 0)"""
    if C.proved(ge0(n)):
        return n
    if C.proved(le(n, ZERO)):
        return ZERO
    if C.formula_mode:
        return ite(ge0(n), n, ZERO)
    return n if C.decide(ge0(n)) else ZERO


def sym_range(*a):
    if all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    for x in a:
        if isinstance(x, SymFloat) or isinstance(x, float):
            raise TypeError('range() needs integers')
    if len(a) == 1:
        return SRange(0, a[0], 1)
    if len(a) == 2:
        return SRange(a[0], a[1], 1)
    return SRange(*a)


class Seg:
    """n consecutive elements, element t (0 <= t < n) is fn(t)."""
    __slots__ = ('n', 'fn')

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class El:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Poison:
    def __init__(self, why):
        self.why = why

    def __getattr__(self, n):
        raise Unsupported(f'use of an unknown value ({object.__getattribute__(self, "why")})')

    def _x(self, *a, **k):
        raise Unsupported(f'use of an unknown value ({object.__getattribute__(self, "why")})')

    __bool__ = __call__ = __iter__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __len__ = __contains__ = __floordiv__ = __neg__ = __index__ = __int__ = _x
    __hash__ = object.__hash__


class TList:
    """A Python list whose length may be symbolic."""
    frozen = None

    def __init__(self, items=()):
        self.s = []
        if isinstance(items, TList):
            self.s = list(items.s)
        else:
            segs = as_segments(items)
            self.s = segs

    @staticmethod
    def of(segs):
        r = TList()
        r.s = list(segs)
        return r

    def concrete(self):
        return all(isinstance(x, El) for x in self.s)

    def symlen(self):
        n = ZERO
        for x in self.s:
            n = add(n, ONE if isinstance(x, El) else x.n)
        return mk(n)

    def __len__(self):
        n = self.symlen()
        if isinstance(n, int):
            return n
        raise Unsupported('len of a symbolic list outside the overridden builtin')

    def __bool__(self):
        n = self.symlen()
        return bool(n > 0)

    def __iter__(self):
        # live iteration as in Python, for concrete lists
        i = 0
        while True:
            if not self.concrete():
                self._concretise()
            if i >= len(self.s):
                return
            yield self.s[i].v
            i += 1

    def _concretise(self):
        out = []
        for x in self.s:
            if isinstance(x, El):
                out.append(x)
            else:
                c = x.n.const()
                if c is None:
                    # the path condition may fix the length
                    for k in range(3):
                        if C.proved(eq(x.n, K(k))):
                            c = k
                            break
                if c is None:
                    raise Unsupported('iteration over a list of symbolic length')
                out.extend(El(x.fn(K(k))) for k in range(c))
        self.s[:] = out

    def _mut(self):
        if self.frozen:
            C.frozen_hits.append(self.frozen)

    def append(self, v):
        self._mut()
        self.s.append(El(v))

    def extend(self, it):
        self._mut()
        self.s.extend(as_segments(it))

    def insert(self, i, v):
        self._mut()
        if i == 0:
            self.s.insert(0, El(v))
            return
        L = self[:i]
        R = self[i:]
        self.s[:] = L.s + [El(v)] + R.s

    def pop(self, i=-1):
        self._mut()
        v = self[i]
        if i == -1:
            r = self[:-1]
        elif i == 0:
            r = self[1:]
        else:
            r = TList.of(self[:i].s + self[i + 1:].s)
        self.s[:] = r.s
        return v

    def reverse(self):
        self._mut()
        self.s[:] = rev_segments(self.s)

    def clear(self):
        self._mut()
        self.s[:] = []

    def copy(self):
        return TList.of(self.s)

    def index(self, v):
        for i, x in enumerate(self):
            if C.decide(tob(x == v)):
                return i
        raise ValueError(f'{v} is not in list')

    def remove(self, v):
        self.pop(self.index(v))

    def count(self, v):
        return sum(1 for x in self if C.decide(tob(x == v)))

    def sort(self, key=None, reverse=False):
        self._mut()
        vals = list(self)
        if any(isinstance(v, SymInt) for v in vals):
            raise Unsupported('sort of symbolic integers')
        vals.sort(key=key, reverse=reverse)
        self.s[:] = [El(v) for v in vals]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return TList.of(slice_segments(self.s, i))
        return item_segments(self.s, top(i))

    def __setitem__(self, i, v):
        self._mut()
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                self.s[:] = as_segments(v)
                return
            raise Unsupported('slice assignment')
        i = top(i)
        c = i.const()
        if c is None or not self.concrete():
            if c is not None and c >= 0 and all(isinstance(x, El) for x in self.s[:c + 1]) and len(self.s) > c:
                self.s[c] = El(v)
                return
            if c == -1 and self.s and isinstance(self.s[-1], El):
                self.s[-1] = El(v)
                return
            raise Unsupported('assignment to a symbolic list position')
        if not -len(self.s) <= c < len(self.s):
            raise IndexError('list assignment index out of range')
        self.s[c] = El(v)

    def __delitem__(self, i):
        self.pop(i)

    def __add__(self, o):
        if not isinstance(o, (TList, list)):
            return NotImplemented
        return TList.of(self.s + as_segments(o))

    def __radd__(self, o):
        if not isinstance(o, (TList, list)):
            return NotImplemented
        return TList.of(as_segments(o) + self.s)

    def __iadd__(self, o):
        self._mut()
        self.s.extend(as_segments(o))
        return self

    def __mul__(self, k):
        if isinstance(k, int):
            return TList.of(self.s * k)
        if isinstance(k, SymInt) and len(self.s) == 1 and isinstance(self.s[0], El):
            v = self.s[0].v
            return TList.of([Seg(sym_nn(k.p), lambda t: v)])
        return NotImplemented
    __rmul__ = __mul__

    def __eq__(self, o):
        if not isinstance(o, (TList, list)):
            return False
        return seq_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkb(bnot(tob(r)))
    __hash__ = None

    def __contains__(self, v):
        return any(C.decide(tob(x == v)) for x in self)

    def __repr__(self):
        return '[' + ', '.join(repr(x.v) if isinstance(x, El) else f'<{x.n} elements>' for x in self.s) + ']'


class STuple:
    """A tuple of symbolic length (immutable)."""

    def __init__(self, segs):
        self.s = list(segs)

    symlen = TList.symlen
    concrete = TList.concrete
    _concretise = TList._concretise
    __iter__ = TList.__iter__
    __len__ = TList.__len__
    __bool__ = TList.__bool__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_tuple(slice_segments(self.s, i))
        return item_segments(self.s, top(i))

    def __add__(self, o):
        return mk_tuple(self.s + as_segments(o))

    def __radd__(self, o):
        return mk_tuple(as_segments(o) + self.s)

    def __eq__(self, o):
        if not isinstance(o, (STuple, tuple)):
            return False
        return seq_eq(self, o)

    def __ne__(self, o):
        return mkb(bnot(tob(self.__eq__(o))))
    __hash__ = None

    def __repr__(self):
        return '(' + ', '.join(repr(x.v) if isinstance(x, El) else f'<{x.n} elements>' for x in self.s) + ')'


def mk_tuple(segs):
    segs = norm_segs(segs)
    if all(isinstance(x, El) for x in segs):
        return tuple(x.v for x in segs)
    return STuple(segs)


def norm_segs(segs):
    out = []
    for x in segs:
        if isinstance(x, Seg):
            c = x.n.const()
            if c is not None:
                out.extend(El(x.fn(K(k))) for k in range(c))
                continue
        out.append(x)
    return out


def seq_eq(a, b):
    la, lb = sym_len(a), sym_len(b)
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
        r = TRUE
        for x, y in zip(a, b):
            r = band(r, tob(x == y))
        return mkb(r)
    raise Unsupported('equality of symbolic sequences')


def rev_segments(s):
    out = []
    for x in reversed(s):
        if isinstance(x, El):
            out.append(x)
        else:
            out.append(Seg(x.n, lambda t, x=x: x.fn(sub(sub(x.n, ONE), t))))
    return out


def as_segments(it):
    if isinstance(it, (TList, STuple)):
        return list(it.s)
    if isinstance(it, SRange):
        n = it.count()
        c = n.const()
        if c is not None:
            return [El(it.item(K(i))) for i in range(c)]
        return [Seg(n, it.item)]
    if isinstance(it, SymIter):
        return list(it.segs)
    if hasattr(it, '_sym_segments'):
        return it._sym_segments()
    return [El(v) for v in it]


def as_tlist(it):
    return TList.of(as_segments(it))


class SymIter:
    """An iterable given by segments (result of map/zip/enumerate/reversed/comprehensions)."""

    def __init__(self, segs):
        self.segs = list(segs)
        self._it = None

    def __iter__(self):
        if self._it is None:
            self._it = iter(TList.of(self.segs))
        return self._it

    def __next__(self):
        return next(iter(self))


def seg_len(x):
    return ONE if isinstance(x, El) else x.n


def item_segments(s, i):
    """Element i (P) of a segment list."""
    c = i.const()
    # negative constant: count from the end
    if c is not None and c < 0:
        k = -c
        off = ZERO
        for x in reversed(s):
            n = seg_len(x)
            cn = n.const()
            if isinstance(x, El):
                if k == 1:
                    return x.v
                k -= 1
                continue
            # last k-th inside this segment?
            if C.decide(le(K(k), n)):
                return x.fn(sub(n, K(k)))
            # fewer elements than k: fork on the concrete number
            for m in range(k):
                if C.decide(eq(n, K(m))):
                    k -= m
                    break
        raise IndexError('list index out of range')
    pos = ZERO
    if c is None:
        tot = ZERO
        for x in s:
            tot = add(tot, seg_len(x))
        if not C.decide(ge0(i)):
            i = add(i, tot)
            if not C.decide(ge0(i)):
                raise IndexError('list index out of range')
    for x in s:
        n = seg_len(x)
        rel = sub(i, pos)
        if isinstance(x, El):
            if C.decide(eq(rel, ZERO)):
                return x.v
        elif C.decide(lt(rel, n)):
            return x.fn(rel)
        pos = add(pos, n)
    raise IndexError('list index out of range')


def slice_segments(s, sl):
    step = sl.step
    if step is not None and step == -1:
        if sl.start is None and sl.stop is None:
            return rev_segments(s)
        raise Unsupported('reverse slice with bounds')
    if step not in (None, 1):
        if all(isinstance(x, El) for x in s) and all(v is None or isinstance(v, int) for v in (sl.start, sl.stop, step)):
            return s[sl]
        raise Unsupported('slice step')
    start = 0 if sl.start is None else sl.start
    out = list(s)
    if all(isinstance(x, El) for x in s) and isinstance(start, int) and (sl.stop is None or isinstance(sl.stop, int)):
        return s[start:sl.stop]
    tot = ZERO
    for x in s:
        tot = add(tot, seg_len(x))
    stop = tot if sl.stop is None else top(sl.stop)
    start = top(start)
    if C.decide(lt(start, ZERO)):
        start = add(start, tot)
        if C.decide(lt(start, ZERO)):
            start = ZERO
    if sl.stop is not None:
        if C.decide(lt(stop, ZERO)):
            stop = add(stop, tot)
            if C.decide(lt(stop, ZERO)):
                stop = ZERO
        elif C.decide(lt(tot, stop)):
            stop = tot
    # cut [start, stop)
    out = []
    pos = ZERO
    for x in s:
        n = seg_len(x)
        end = add(pos, n)
        if isinstance(x, El):
            if C.decide(band(le(start, pos), le(end, stop))):
                out.append(x)
        else:
            # intersection of [pos, end) and [start, stop)
            a = pos if C.decide(le(start, pos)) else start
            b = end if C.decide(le(end, stop)) else stop
            if C.decide(lt(a, b)):
                d = sub(a, pos)
                out.append(Seg(sub(b, a), lambda t, x=x, d=d: x.fn(add(t, d))))
        pos = end
    return out


def sym_len(x):
    if hasattr(x, 'symlen'):
        return x.symlen()
    return builtins.len(x)
