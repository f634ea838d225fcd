"""Equality of two tensor entries (sums of guarded products)."""
import itertools
from fractions import Fraction

import ir
import z3
import core
from ir import P, K, V, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, scale, ge0, le, lt, eq, bnot, band, bor
from tensor import e_scale, e_subst, e_mul

FILTERS = set()  # atom names that are filters (preferred for pinning)
RULES = []  # rewrite rules on normalised monos: mono -> mono or None


def lin_in(p, v):
    """coefficient of v if p is linear in v with v at top level only, else None"""
    a = ('v', v)
    c = p.t.get((a,), 0)
    if not c:
        return None
    for m in p.t:
        if m == (a,):
            continue
        for x in m:
            if v in ir.fv_atom(x):
                return None
    return c


def conj(g):
    return list(g[1]) if g[0] == 'and' else [] if g == TRUE else [g]


ASSUME = [TRUE]  # what is known of the free indices of the entries compared


def divisors(lits):
    """Sizes m with a literal v < m."""
    out = []
    for c in lits:
        if c[0] != 'ge0':
            continue
        for m, k in c[1].t.items():
            if k == -1 and len(m) == 1 and m[0][0] == 'v':
                d = add(add(c[1], ir.atom(m[0])), ONE)
                if d.const() is None and d not in out:
                    out.append(d)
    return out


def split_linear(p, m):
    """(X, Y) with p = m X + Y by division with respect to each monomial of m."""
    for lm, lc in m.t.items():
        if not lm or abs(lc) != 1:
            continue
        X = ZERO
        for q, c in p.t.items():
            r = list(q)
            if all(r.count(x) >= lm.count(x) for x in lm):
                for x in lm:
                    r.remove(x)
                X = add(X, P({tuple(r): c * lc}))
        if X != ZERO:
            yield X, sub(p, mul(m, X))


def euclid(mono):
    """m X + Y = 0 with |Y| < m holds iff X = 0 and Y = 0: splits an equality of linear indices into their digits."""
    import vc
    a, b, g, t = mono
    done = set()
    while True:
        lits = conj(g)
        todo = [c for c in lits if c[0] == 'eq0' and c not in done and any(len(m) > 1 for m in c[1].t)]
        if not todo:
            return (a, b, g, t)
        c = todo[0]
        done.add(c)
        p = c[1]
        under = band(ASSUME[0], *[x for x in lits if x != c])
        hit = None
        for m in divisors(lits + conj(ASSUME[0])):
            for X, Y in split_linear(p, m):
                if any(len(q) > 1 for q in Y.t) and len(Y.t) >= len(p.t):
                    continue
                if vc.with_assume(under, lambda: core.C.proved(band(lt(Y, m), lt(neg(m), Y)))):
                    hit = (X, Y)
                    break
            if hit:
                break
        if hit:
            g = band(*[x for x in lits if x != c], ir.eq0(hit[0]), ir.eq0(hit[1]))
            if g == FALSE:
                return None


def nonlinear(g):
    return any(c[0] == 'eq0' and any(len(m) > 1 for m in c[1].t) for c in conj(g))


def eliminate(mono):
    """Remove bound variables fixed by an equality guard."""
    a, b, g, t = mono
    changed = True
    while changed and b:
        changed = False
        if nonlinear(g):
            m = euclid((a, b, g, t))
            if m is None:
                return None
            a, b, g, t = m
        best = None
        for c in conj(g):
            if c[0] != 'eq0':
                continue
            for v in b:
                k = lin_in(c[1], v)
                if k in (1, -1):
                    # prefer variables pinned by filters
                    pr = 2 if any(len(m) > 1 for m in c[1].t) else 0 if any(n in FILTERS and v in ir.fv(x) for n, ix in t for x in ix) else 1
                    cand = (pr, v, c[1], k)
                    if best is None or cand[:2] < best[:2]:
                        best = cand
        if best:
            _, v, p, k = best
            rest = P({m: c for m, c in p.t.items() if m != (('v', v),)})
            val = scale(rest, -k)
            r = e_subst([(a, (), g, t)], {v: val})
            if not r:
                return None
            a, _, g, t = r[0]
            b = tuple(x for x in b if x != v)
            changed = True
    return (a, b, g, t)


def pin(mono):
    """Reparametrise the bound variables by the atoms they index."""
    a, b, g, t = mono
    names = []
    un = list(b)
    # drop variables nowhere used in atoms: keep them, unknown
    progress = True
    pinned = set()
    while un and progress:
        progress = False
        cands = []
        for v in un:
            for ai, (n, ix) in enumerate(t):
                for pos, x in enumerate(ix):
                    k = lin_in(x, v)
                    if k in (1, -1):
                        others = sum(1 for w in un if w != v and w in ir.fv(x))
                        # already the place of a pinned variable?
                        if any(w in ir.fv(x) for w in pinned):
                            others += 5
                        # signature: where else the variable is used
                        sig = tuple(sorted((m, q) for m, iy in t for q, y in enumerate(iy) if (m, q) != (n, pos) and v in ir.fv(y)))
                        cands.append(((0 if n in FILTERS else 1, others, n, pos, sig), v, x, k))
        if cands:
            cands.sort(key=lambda c: repr(c[0]))
            key, v, x, k = cands[0]
            nm = f'@{key[2]}.{key[3]}.{len([1 for q in names if q[0] == (key[2], key[3])])}'
            names.append(((key[2], key[3]), nm))
            rest = P({m: c for m, c in x.t.items() if m != (('v', v),)})
            # x = k v + rest = nm  ->  v = k (nm - rest)
            val = scale(sub(V(nm), rest), k)
            r = e_subst([(a, (), g, t)], {v: val})
            if not r:
                return None
            a, _, g, t = r[0]
            un.remove(v)
            pinned.add(nm)
            progress = True
    if un:  # variables no factor determines: named by their uses, so that equal sums agree
        un.sort(key=lambda v: repr(sorted((n, q, lin_in(y, v) or 0) for n, iy in t for q, y in enumerate(iy) if v in ir.fv(y))))
        s = {v: f'#u{q}' for q, v in enumerate(un)}
        r = e_subst([(a, (), g, t)], {v: V(w) for v, w in s.items()})
        if not r:
            return None
        a, _, g, t = r[0]
        un = [s[v] for v in un]
    return (a, tuple(sorted(pinned)) + tuple(un), g, t, bool(un))


UNFOLD = {}  # atom name -> function(index tuple) -> entry or None (definitions of specification sequences)


def expand(e):
    todo = list(e)
    out = []
    n = 0
    while todo:
        m = todo.pop()
        a, b, g, t = m
        for k, (nm, ix) in enumerate(t):
            f = UNFOLD.get(nm)
            d = f(ix) if f is not None else None
            if d is not None:
                n += 1
                if n > 4000:
                    raise core.Unsupported('unfolding does not end')
                todo.extend(e_mul([(a, b, g, t[:k] + t[k + 1:])], d))
                break
        else:
            out.append(m)
    return out


def normalise(e):
    out = []
    if UNFOLD:
        e = expand(e)
    for m in e:
        m = eliminate(m)
        if m is None:
            continue
        for r in RULES:
            m2 = r(m)
            if m2 is not None:
                m = m2
        m = pin(m)
        if m is None or m[2] == FALSE:
            continue
        out.append(m)
    return out


RENAME = [True]  # whether to try other orders of equally named factors


def term_key(t):
    return tuple(sorted(n for n, _ in t))


def z3atoms(t):
    if not t:
        return z3.RealVal(1)
    ts = sorted(t, key=lambda a: (a[0], repr(a[1])))
    args = [ir.z3P(x) for n, ix in ts for x in ix]
    name = 'T:' + '*'.join(n for n, _ in ts)
    if not args:
        return z3.Real(name)
    return z3.Function(name, *([z3.IntSort()] * len(args)), z3.RealSort())(*args)


def equal(e1, e2, assume=TRUE):
    """'unsat' (equal), 'sat' (different, model in ctx) or 'unknown' with a reason."""
    C = core.C
    ASSUME[0] = assume
    d = normalise(e1 + e_scale(e2, -1)) if False else normalise(e1) + [(-a, b, g, t, u) for a, b, g, t, u in normalise(e2)]
    groups = {}
    # cheap cancellation
    acc = {}
    for a, b, g, t, u in d:
        k = (b, g, tuple(sorted(t, key=lambda x: (x[0], repr(x[1])))))
        acc[k] = acc.get(k, 0) + a
    for (b, g, t), a in acc.items():
        if a:
            groups.setdefault((term_key(t), b), []).append((a, g, t))
    unk = None
    for (tk, b), ms in groups.items():
        r = decide_group(tk, b, ms, assume)
        if r == 'sat' and RENAME[0] and len(set(tk)) < len(tk):
            for alt in renamings(b, ms):
                r2 = decide_group(tk, b, alt, assume)
                if r2 == 'unsat':
                    r = r2
                    break
            else:
                r = decide_group(tk, b, ms, assume)  # the model of the original reading
        if r == 'unsat':
            continue
        if r == 'unknown':
            unk = 'solver gave no answer'
            continue
        if any(not v.startswith('@') for v in b):
            unk = 'free bound variable'
            continue
        return 'sat', f'terms over {tk}: ' + '; '.join(f'{a} * {t} [{g}]' for a, g, t in ms)[:600]
    return ('unknown', unk) if unk else ('unsat', None)


def renamings(b, ms, limit=60):
    """The same sums with the bound variables of equally named factors exchanged."""
    fams = {}
    for v in b:
        if v.startswith('@'):
            fams.setdefault(v.rsplit('.', 1)[0], []).append(v)
    fams = [f for f in fams.values() if len(f) > 1]
    if not fams or len(ms) < 2:
        return
    # positions of one factor move together: permute the factor numbers of all families of the same size
    perms = []
    for size in sorted({len(f) for f in fams}):
        perms.append([(size, p) for p in itertools.permutations(range(size))])
    subs = []
    for choice in itertools.product(*perms):
        d = dict(choice)
        sb = {}
        for f in fams:
            for i, j in enumerate(d[len(f)]):
                if i != j:
                    sb[f[i]] = V(f[j])
        subs.append(sb)
    n = 0
    for combo in itertools.product(subs, repeat=len(ms) - 1):
        n += 1
        if n > limit:
            return
        if not any(combo):
            continue
        out = [ms[0]]
        for (a, g, t), sb in zip(ms[1:], combo):
            if sb:
                r = e_subst([(a, (), g, t)], sb)
                if not r:
                    break
                a, _, g, t = r[0]
            out.append((a, g, t))
        else:
            yield out


def product_hints(g):
    """Valid instances of 0 <= f and 0 <= p imply 0 <= f p, for the power-of-two factors f of the guard."""
    C = core.C
    lits = [c[1] for c in conj(g) if c[0] == 'ge0']
    fs = {x for p in lits for m in p.t if len(m) > 1 for x in m if x[0] == 'uf' and x[1] == 'pow2'}
    for x in fs:
        f = ir.atom(x)
        for p in lits:
            if any(x in m for m in p.t):
                continue
            b = bor(bnot(band(ge0(f), ge0(p))), ge0(mul(f, p)))
            C._axioms(b)
            C.solver.add(ir.z3B(b))


def decide_group(tk, b, ms, assume):
    C = core.C
    terms = []
    for a, g, t in ms:
        C._axioms(g)
        product_hints(g)
        for _, ix in t:
            for x in ix:
                C._axioms(x)
        terms.append(z3.RealVal(str(a)) * z3.If(ir.z3B(g), z3atoms(t), z3.RealVal(0)))
    C._axioms(assume)
    f = z3.And(ir.z3B(assume), z3.Sum(terms) != 0)
    return C.check_z3(f)
