"""Integer terms (polynomials over opaque atoms), conditions and their z3 form.

Integers are mathematical (unbounded); products of two symbolic integers are
kept as monomials and handed to z3 as uninterpreted constants.
"""
import sys
from math import gcd

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402


class P:
    """Immutable integer polynomial: {monomial (tuple of atoms): coefficient}."""
    __slots__ = ('t', '_h', '_s')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._s = None

    def key(self):
        if self._s is None:
            self._s = tuple(sorted(((tuple(akey(a) for a in m), c) for m, c in self.t.items())))
        return self._s

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda mc: repr(mc[0])):
            s = '*'.join(ashow(a) for a in m)
            out.append(str(c) if not s else s if c == 1 else f'{c}*{s}')
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]


_keys = {}


def akey(a):
    k = _keys.get(a)
    if k is None:
        k = _keys[a] = repr(a) if a[0] != 'v' else a[1]
    return k


def ashow(a):
    if a[0] == 'v':
        return a[1]
    if a[0] == 'div':
        return f'({a[1]} div {a[2]})'
    if a[0] == 'mod':
        return f'({a[1]} mod {a[2]})'
    if a[0] == 'ite':
        return f'ite({a[1]}, {a[2]}, {a[3]})'
    return f'{a[1]}({", ".join(map(repr, a[2]))})'


ZERO = P({})
ONE = P({(): 1})


def K(c):
    return P({(): c}) if c else ZERO


def V(name):
    return P({(('v', name),): 1})


def atom(a):
    return P({(a,): 1})


def add(a, b):
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + c
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return P(t)


def scale(a, c):
    return P({m: v * c for m, v in a.t.items()}) if c else ZERO


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2, key=akey)) if m1 and m2 else m1 or m2
            n = t.get(m, 0) + c1 * c2
            if n:
                t[m] = n
            else:
                t.pop(m, None)
    return P(t)


def uf(name, *args):
    return atom(('uf', name, tuple(args)))


def monic_div(a, d):
    """Exact polynomial division by a single monomial or by a structurally equal polynomial; None if inexact."""
    if a == d:
        return ONE
    if len(d.t) == 1:
        (dm, dc), = d.t.items()
        t = {}
        for m, c in a.t.items():
            if c % dc:
                return None
            mm = list(m)
            for x in dm:
                if x not in mm:
                    return None
                mm.remove(x)
            t[tuple(mm)] = c // dc
        return P(t)
    return None


def div(a, d):
    ca, cd = a.const(), d.const()
    if ca is not None and cd is not None and cd:
        return K(ca // cd)
    if cd == 1:
        return a
    q = monic_div(a, d)
    if q is not None:
        return q
    if cd is not None and cd > 0:
        t, r = {}, {}
        for m, c in a.t.items():
            (t if m and c % cd == 0 else r)[m] = c
        c0 = r.pop((), 0)
        if not r:
            return add(P({m: c // cd for m, c in t.items()}), K(c0 // cd))
        # keep the remaining part reduced
        k = c0 // cd
        t2 = {m: c // cd for m, c in t.items()}
        # split off the multiples inside the coefficients of the rest
        rest = {}
        for m, c in r.items():
            qq = c // cd
            if qq:
                t2[m] = t2.get(m, 0) + qq
            if c - qq * cd:
                rest[m] = c - qq * cd
        if c0 - k * cd:
            rest[()] = c0 - k * cd
        return add(add(P({m: c for m, c in t2.items() if c}), K(k)), atom(('div', P(rest), d)))
    return atom(('div', a, d))


def mod(a, d):
    cd = d.const()
    if cd is not None and cd > 0:
        return sub(a, scale(div(a, d), cd)) if a.const() is not None else atom_mod(a, cd)
    return sub(a, mul(d, div(a, d)))


def atom_mod(a, cd):
    rest = {}
    for m, c in a.t.items():
        c = c % cd
        if c:
            rest[m] = c
    p = P(rest)
    if p.const() is not None:
        return K(p.const() % cd)
    # express through div, so that linear reasoning connects both
    return sub(p, scale(div(p, K(cd)), cd))


# ------------------------------------------------------------------ conditions
TRUE = ('true',)
FALSE = ('false',)


def ge0(p):
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    g = 0
    for m, v in p.t.items():
        if m:
            g = gcd(g, v)
    if g > 1:
        c0 = p.t.get((), 0)
        t = {m: v // g for m, v in p.t.items() if m}
        if c0 // g:
            t[()] = c0 // g
        p = P(t)
    return ('ge0', p)


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    g = 0
    for m, v in p.t.items():
        if m:
            g = gcd(g, v)
    c0 = p.t.get((), 0)
    if g > 1:
        if c0 % g:
            return FALSE
        p = P({m: v // g for m, v in p.t.items()})
    # sign normal form
    m0 = min(p.t, key=lambda m: tuple(akey(a) for a in m) or ('~',))
    if p.t[m0] < 0:
        p = neg(p)
    return ('eq0', p)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def eq(a, b):
    return eq0(sub(a, b))


def bnot(b):
    if b == TRUE:
        return FALSE
    if b == FALSE:
        return TRUE
    if b[0] == 'not':
        return b[1]
    if b[0] == 'ge0':
        return ge0(sub(neg(b[1]), ONE))
    return ('not', b)


def band(*bs):
    out = []
    for b in bs:
        if b == FALSE:
            return FALSE
        if b == TRUE:
            continue
        for x in (b[1] if b[0] == 'and' else (b,)):
            if x not in out:
                out.append(x)
    for x in out:
        if bnot(x) in out:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else ('and', tuple(out))


def bor(*bs):
    out = []
    for b in bs:
        if b == TRUE:
            return TRUE
        if b == FALSE:
            continue
        for x in (b[1] if b[0] == 'or' else (b,)):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else ('or', tuple(out))


def ite(c, a, b):
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    return atom(('ite', c, a, b))


def bv(name):
    return ('bv', name)


# ------------------------------------------------------------------ substitution
def subst(x, s, memo=None):
    """Substitute {variable name: P} in P / condition / atom-argument structures."""
    if memo is None:
        memo = {}
    return _subP(x, s, memo) if isinstance(x, P) else _subB(x, s, memo)


def _subP(p, s, memo):
    r = memo.get(p)
    if r is not None:
        return r
    acc = ZERO
    plain = {}
    for m, c in p.t.items():
        if not any(_touch(a, s) for a in m):
            plain[m] = c
            continue
        q = K(c)
        for a in m:
            q = mul(q, _subA(a, s, memo))
        acc = add(acc, q)
    r = add(P(plain), acc) if plain else acc
    memo[p] = r
    return r


_fv = {}


def fv_atom(a):
    r = _fv.get(a)
    if r is None:
        k = a[0]
        if k == 'v':
            r = frozenset((a[1],))
        elif k in ('div', 'mod'):
            r = fv(a[1]) | fv(a[2])
        elif k == 'ite':
            r = fvB(a[1]) | fv(a[2]) | fv(a[3])
        else:
            r = frozenset().union(*[fv(x) for x in a[2]])
        _fv[a] = r
    return r


_fvp = {}


def fv(p):
    r = _fvp.get(p)
    if r is None:
        r = frozenset().union(*[fv_atom(a) for m in p.t for a in m])
        _fvp[p] = r
    return r


_fvb = {}


def fvB(b):
    r = _fvb.get(b)
    if r is None:
        k = b[0]
        if k in ('ge0', 'eq0'):
            r = fv(b[1])
        elif k == 'not':
            r = fvB(b[1])
        elif k in ('and', 'or'):
            r = frozenset().union(*[fvB(x) for x in b[1]])
        elif k == 'bv':
            r = frozenset((b[1],))
        else:
            r = frozenset()
        _fvb[b] = r
    return r


def _touch(a, s):
    return not fv_atom(a).isdisjoint(s)


def _subA(a, s, memo):
    k = a[0]
    if k == 'v':
        return s.get(a[1], atom(a))
    if not _touch(a, s):
        return atom(a)
    if k == 'div':
        return div(_subP(a[1], s, memo), _subP(a[2], s, memo))
    if k == 'mod':
        return mod(_subP(a[1], s, memo), _subP(a[2], s, memo))
    if k == 'ite':
        return ite(_subB(a[1], s, memo), _subP(a[2], s, memo), _subP(a[3], s, memo))
    return mkuf(a[1], tuple(_subP(x, s, memo) for x in a[2]))


def mkuf(name, args):
    f = UF_FOLD.get(name)
    if f is not None:
        r = f(args)
        if r is not None:
            return r
    return atom(('uf', name, args))


UF_FOLD = {}


def _fold_pow2(args):
    c = args[0].const()
    if c is not None and c >= 0:
        return K(2 ** c)
    # pow2(x + c) = 2^c pow2(x)  for c > 0
    c0 = args[0].t.get((), 0)
    if c0 > 0:
        return scale(atom(('uf', 'pow2', (sub(args[0], K(c0)),))), 2 ** c0)
    return None


UF_FOLD['pow2'] = _fold_pow2


def _subB(b, s, memo):
    k = b[0]
    if k in ('true', 'false'):
        return b
    if fvB(b).isdisjoint(s):
        return b
    if k == 'ge0':
        return ge0(_subP(b[1], s, memo))
    if k == 'eq0':
        return eq0(_subP(b[1], s, memo))
    if k == 'not':
        return bnot(_subB(b[1], s, memo))
    if k == 'and':
        return band(*[_subB(x, s, memo) for x in b[1]])
    if k == 'or':
        return bor(*[_subB(x, s, memo) for x in b[1]])
    return b


# ------------------------------------------------------------------ z3
_zp, _zb, _za = {}, {}, {}
UFAXIOMS = {}  # name -> function(args) -> list of conditions true of the application
PENDING = []  # axioms produced while translating, (term key, conditions)


def z3P(p):
    r = _zp.get(p)
    if r is None:
        terms = []
        for m, c in p.t.items():
            if not m:
                terms.append(z3.IntVal(c))
                continue
            x = z3A(m[0]) if len(m) == 1 else z3M(m)
            terms.append(x if c == 1 else c * x)
        r = z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else z3.IntVal(0)
        _zp[p] = r
    return r


def z3M(m):
    k = ('mono', m)
    r = _za.get(k)
    if r is None:
        r = z3.Int('M<' + '*'.join(akey(a) for a in m) + '>')
        _za[k] = r
    return r


def z3A(a):
    r = _za.get(a)
    if r is None:
        k = a[0]
        if k == 'v':
            r = z3.Int(a[1])
        elif k == 'div':
            d = a[2].const()
            if d is not None and d > 0:
                r = z3P(a[1]) / d
            else:
                r = z3.Function('DIV', z3.IntSort(), z3.IntSort(), z3.IntSort())(z3P(a[1]), z3P(a[2]))
        elif k == 'mod':
            r = z3P(a[1]) % a[2].const()
        elif k == 'ite':
            r = z3.If(z3B(a[1]), z3P(a[2]), z3P(a[3]))
        else:
            n = len(a[2])
            if n == 0:
                r = z3.Int('c!' + a[1])
            else:
                f = z3.Function(a[1], *([z3.IntSort()] * (n + 1)))
                r = f(*[z3P(x) for x in a[2]])
        _za[a] = r
    return r


def z3B(b):
    r = _zb.get(b)
    if r is None:
        k = b[0]
        if k == 'true':
            r = z3.BoolVal(True)
        elif k == 'false':
            r = z3.BoolVal(False)
        elif k == 'ge0':
            r = z3P(b[1]) >= 0
        elif k == 'eq0':
            r = z3P(b[1]) == 0
        elif k == 'not':
            r = z3.Not(z3B(b[1]))
        elif k == 'and':
            r = z3.And([z3B(x) for x in b[1]])
        elif k == 'or':
            r = z3.Or([z3B(x) for x in b[1]])
        else:
            r = z3.Bool(b[1])
        _zb[b] = r
    return r


_ats = {}


def atoms_of(x):
    """All UF applications and nonlinear monomials (recursively) of a P or condition."""
    r = _ats.get(x)
    if r is not None:
        return r
    out = set()
    if isinstance(x, P):
        for m in x.t:
            if len(m) > 1:
                out.add(('mono', m))
            for a in m:
                if a[0] == 'uf':
                    out.add(a)
                    for y in a[2]:
                        out |= atoms_of(y)
                elif a[0] in ('div', 'mod'):
                    out |= atoms_of(a[1]) | atoms_of(a[2])
                    if a[2].const() is None:
                        out.add(a)
                elif a[0] == 'ite':
                    out |= atoms_of(a[1]) | atoms_of(a[2]) | atoms_of(a[3])
    else:
        if x[0] in ('ge0', 'eq0'):
            out |= atoms_of(x[1])
        elif x[0] == 'not':
            out |= atoms_of(x[1])
        elif x[0] in ('and', 'or'):
            for y in x[1]:
                out |= atoms_of(y)
    _ats[x] = out
    return out
