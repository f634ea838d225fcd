"""Contracts of sparse COO tensors.

A sparse tensor is its dense formula; `coo` states it as the sum over the stored entries
  dense[r, c] = sum_k values[k] * [indices[0, k] = r] * [indices[1, k] = c]
(duplicates add up) and rewrites the sum over k into a sum over the enumerated set where
k occurs only through the coordinates of an enumeration (fseq) or of a coalesced tensor."""
import core
import fseq
import ir
import tensor as T
from core import Unsupported, Seg, El, TList, mk, mkb, top
from tensor import SymTensor, e_guard, e_mul, e_subst, e_atom, prod
from ir import P, K, V, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, scale, le, lt, eq, ge0, bnot, band, bor


class Layout:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'torch.' + self.n


COO, STRIDED = Layout('sparse_coo'), Layout('strided')


class Pat:
    """Stored pattern of a coalesced tensor: nnz entries, values name.v(k), coordinates name.j(k)."""

    def __init__(self, name, args, n):
        self.name, self.args, self.n = name, args, n

    def argp(self):
        return tuple(V(a) for a in self.args)


class Raw:
    """A sparse tensor that is not known to be coalesced; n entries are stored once it is."""

    def __init__(self, n):
        self.n = n


INVERSE = {}  # name of an injective integer function -> name of its inverse
PRODUCT = {}  # name -> (factors per dimension, entry at factor indices), patterns with product dimensions
PATS = {}  # name -> (args, dims generic sizes, canonical variables, entry, n)


def reset():
    PATS.clear()
    PRODUCT.clear()
    INVERSE.clear()


def among(ix, i):
    """Whether i is one of the entries of a one-dimensional integer tensor."""
    import vc
    n = prod(ix.groups[0])
    v = vc.uvar('m')
    e = ix._ielem([V(v)] if ix.groups[0] else [])
    at = next(iter(e.t), None)
    if len(e.t) == 1 and e.t[at] == 1 and len(at) == 1 and at[0][0] == 'uf' and at[0][2] and at[0][2][0] == V(v) and not any(v in ir.fv(y) for y in at[0][2][1:]):
        nm, rest = at[0][1], at[0][2][1:]
        if nm in INVERSE:
            k = ir.mkuf(INVERSE[nm], (i,) + rest)
            return band(ge0(k), lt(k, n), eq(ir.mkuf(nm, (k,) + rest), i))
        h = enum_of(nm)
        if h and h[0] in fseq.ENUMS and len(fseq.ENUMS[h[0]].vars) == 1 and n == fseq.ENUMS[h[0]].n(rest):
            return fseq.ENUMS[h[0]].member([i], rest)
    raise Unsupported('an index tensor whose set of entries is not known')


def dims(x):
    return [prod(g) for g in x.groups]


def declare(x, name, n=None):
    """Give a tensor of single-factor dimensions a stored pattern (coalesced)."""
    C = core.C
    if not any(x.groups) and n is None and C.store.get('scalar'):
        c = C.store['scalar'](x.E([]))  # (stored pattern, entry) of a number the contract has a name for
        if c is not None:
            x._elem = lambda fl: c[1]
            x.sparse = c[0]
            return x
    canon = [f'{name}${j}' for j in range(len(x.groups))]
    flat = [V(c) if q == 0 else V(f'{c}.{q}') for c, g in zip(canon, x.groups) for q in range(len(g))]
    e = x.E(flat)
    if any(len(g) > 1 for g in x.groups):  # coordinates of a product dimension: only read together, by sparse_coo_tensor
        PRODUCT[name] = [tuple(g) for g in x.groups], x._elem
    sizes = dims(x)
    fvs = set()
    for p in sizes:
        fvs |= ir.fv(p)
    for a, b, g, t in e:
        f = ir.fvB(g)
        for _, ix in t:
            for y in ix:
                f = f | ir.fv(y)
        fvs |= f - set(b)
    args = sorted(fvs - {v for f in flat for v in ir.fv(f)})
    if n is None:
        n = ir.mkuf(name + '.n', tuple(V(a) for a in args)) if args else V(name + '.n')
    PATS[name] = (args, sizes, canon, e, n, [bool(g) for g in x.groups])
    ir.UFAXIOMS[name + '.n'] = lambda *a: [ge0(ir.mkuf(name + '.n', a))]
    if not args:
        C.assume(ge0(n))

    for j in range(len(canon)):
        def ax(t, *a, j=j):
            s = dict(zip(args, a))
            v = ir.mkuf(f'{name}.{j}', (t,) + a)
            return [bor(bnot(band(ge0(t), lt(t, ir.subst(n, s)))), band(ge0(v), lt(v, ir.subst(sizes[j], s))))]
        ir.UFAXIOMS[f'{name}.{j}'] = ax
    x.sparse = Pat(name, args, n)
    return x


def coalesce(x):
    if isinstance(x.sparse, Pat):
        return x
    h = x.__dict__.get('_co')
    if h is not None and h[0] == x.version == x.storage.version and h[1] is x._elem and h[2].version == h[2].storage.version:
        r = h[2]._snap()  # another result: its stored entries are those of the first one
        r.sparse = h[2].sparse
        return r
    r = x._snap()
    r.storage = T.Storage()
    r.version = r.storage.version
    r = declare(r, core.C.fresh('co').replace('!', ''), x.sparse.n if isinstance(x.sparse, Raw) else None)
    x._co = (x.version, x._elem, r)
    return r


def pat(x):
    if x.sparse is None:
        raise RuntimeError('sparse tensor expected')
    if isinstance(x.sparse, Raw):
        raise RuntimeError('Cannot get indices on an uncoalesced tensor')
    if not isinstance(x.sparse, Pat):
        raise Unsupported('indices of an uncoalesced tensor')
    return x.sparse


def indices(x):
    p = pat(x)
    n = len(x.groups)
    a = p.argp()

    def iel(fl):
        d, k = (fl[0], fl[1:]) if n > 1 else (ZERO, fl)
        k = k[0] if k else ZERO
        c = d.const()
        if c is not None:
            return ir.mkuf(f'{p.name}.{c}', (k,) + a)
        r = ir.mkuf(f'{p.name}.{n - 1}', (k,) + a)
        for q in range(n - 2, -1, -1):
            r = ir.ite(eq(d, K(q)), ir.mkuf(f'{p.name}.{q}', (k,) + a), r)
        return r
    return SymTensor([(K(n),), (p.n,)], lambda fl: T.e_intval(iel(fl)), T.I64, x._device, storage=share(x, 'i'), ielem=iel)


def values(x):
    p = pat(x)
    a = p.argp()
    return SymTensor([(p.n,)], lambda fl: e_atom(p.name + '.v', [fl[0] if fl else ZERO, *a]), x._dtype, x._device, storage=share(x, 'v'))


def share(x, what):
    """indices() and values() of a coalesced tensor are views of what it stores"""
    s = x.__dict__.setdefault('_parts', {})
    if what not in s:
        s[what] = T.Storage(x.storage.frozen and f'{x.storage.frozen}.{"indices" if what == "i" else "values"}()')
    return s[what]


def from_dense(x):
    r = x._snap()
    r.sparse = True
    return r


def single_dims(x):
    """The same tensor with one index per dimension."""
    return x


# ------------------------------------------------------------------ binding of stored entries
def simp_ite(mono):
    """Resolve conditional index expressions whose condition the guard decides."""
    import eqprove
    for _ in range(60):
        a, b, g, t = mono
        lits = set(eqprove.conj(g))
        hit = None
        for at in [q for y in [g] + [y for _, ix in t for y in ix] for q in ites(y)]:
            hit = decided(at[1], lits)
            if hit is not None:
                break
        if hit is None:
            return mono
        v = at[2] if hit else at[3]
        mono = replace_atom(mono, at, v)
        if mono is None:
            return None
    raise Unsupported('conditional indices')


def ites(x):
    """The conditional atoms of a term or condition."""
    out = []
    if isinstance(x, P):
        for m in x.t:
            for a in m:
                if a[0] == 'ite':
                    out.append(a)
                    for y in a[1:]:
                        out.extend(ites(y))
                elif a[0] == 'uf':
                    for y in a[2]:
                        out.extend(ites(y))
                elif a[0] in ('div', 'mod'):
                    out.extend(ites(a[1]) + ites(a[2]))
    elif x[0] in ('ge0', 'eq0', 'not'):
        out.extend(ites(x[1]))
    elif x[0] in ('and', 'or'):
        for y in x[1]:
            out.extend(ites(y))
    return out


def decided(c, lits):
    cs = list(c[1]) if c[0] == 'and' else [c]
    if all(x in lits for x in cs):
        return True
    if any(bnot(x) in lits for x in cs):
        return False
    if c[0] == 'or' and all(bnot(x) in lits for x in c[1]):
        return False
    return None


def rep(x, at, v):
    """Replace an atom inside a term or condition."""
    if isinstance(x, P):
        r = ZERO
        for m, c in x.t.items():
            y = K(c)
            for q in m:
                y = mul(y, v if q == at else repA(q, at, v))
            r = add(r, y)
        return r
    k = x[0]
    if k in ('true', 'false'):
        return x
    if k == 'ge0':
        return ge0(rep(x[1], at, v))
    if k == 'eq0':
        return ir.eq0(rep(x[1], at, v))
    if k == 'not':
        return bnot(rep(x[1], at, v))
    if k == 'and':
        return band(*[rep(y, at, v) for y in x[1]])
    if k == 'or':
        return bor(*[rep(y, at, v) for y in x[1]])
    return x


def repA(q, at, v):
    k = q[0]
    if k == 'v':
        return ir.atom(q)
    if k == 'div':
        return ir.div(rep(q[1], at, v), rep(q[2], at, v))
    if k == 'mod':
        return ir.mod(rep(q[1], at, v), rep(q[2], at, v))
    if k == 'ite':
        return ir.ite(rep(q[1], at, v), rep(q[2], at, v), rep(q[3], at, v))
    return ir.mkuf(q[1], tuple(rep(y, at, v) for y in q[2]))


def replace_atom(mono, at, v):
    a, b, g, t = mono
    g = rep(g, at, v)
    if g == FALSE:
        return None
    return (a, b, g, tuple((n, tuple(rep(y, at, v) for y in ix)) for n, ix in t))


def all_atoms(mono):
    a, b, g, t = mono
    out = set(ir.atoms_of(g)) if g != TRUE else set()
    for _, ix in t:
        for y in ix:
            out |= set(ir.atoms_of(y))
    return out


def enum_of(name):
    """(enumeration, coordinate) of a coordinate function's name"""
    h, _, j = name.rpartition('.')
    if not j.isdigit():
        return None
    if h in fseq.ENUMS:
        return h, int(j)
    if h in PATS:
        return h, int(j)
    return None


def implied(lit, under):
    import vc
    return lit == TRUE or vc.with_assume(under, lambda: core.C.proved(lit))


def bind(mono, k):
    """Rewrite the sum over the bound variable k of one term; list of terms."""
    import eqprove
    mono = simp_ite(mono)
    if mono is None or mono[2] == FALSE:
        return []
    a, b, g, t = mono
    uses = {}  # enumeration -> set of (argument, other arguments)
    for at in all_atoms(mono):
        if at[0] == 'uf' and at[2] and k in ir.fv(at[2][0]):
            e = enum_of(at[1])
            if e:
                uses.setdefault(e[0], set()).add(at[2])
    for n, ix in t:
        if n.endswith('.v') and n[:-2] in PATS and k in ir.fv(ix[0]):
            uses.setdefault(n[:-2], set()).add(tuple(ix))
    if not uses:
        return [mono]
    if len(uses) > 1 or any(len(u) > 1 for u in uses.values()):
        raise Unsupported('an entry that reads several places of an enumeration')
    (name, (arg,)), = [(n, tuple(u)) for n, u in uses.items()]
    p, rest = arg[0], arg[1:]
    c = eqprove.lin_in(p, k)
    if c not in (1, -1) or any(k in ir.fv(y) for y in rest):
        raise Unsupported('an enumeration read at a nonlinear place')
    tau = T.fresh_bv()
    kv = scale(sub(V(tau), P({m: q for m, q in p.t.items() if m != (('v', k),)})), c)
    r = e_subst([(a, (), g, t)], {k: kv})
    if not r:
        return []
    a, _, g, t = r[0]
    if name in PRODUCT:
        raise Unsupported('single coordinates of a product dimension')
    if name in PATS:
        args, sizes, canon, entry, n, has = PATS[name]
        s = dict(zip(args, rest))
        n = ir.subst(n, s)
    else:
        E = fseq.ENUMS[name]
        n = E.n(rest)
        canon = E.vars
    qs = [T.fresh_bv() for _ in canon]
    for j, q in enumerate(qs):
        r = replace_atom((a, (), g, t), ('uf', f'{name}.{j}', (V(tau),) + rest), V(q))
        if r is None:
            return []
        a, _, g, t = r
    if name in PATS:
        hits = [i for i, (nm, ix) in enumerate(t) if nm == name + '.v' and ix[0] == V(tau)]
        if len(hits) != 1:
            raise Unsupported('coordinates of a pattern used without its values')
        t = t[:hits[0]] + t[hits[0] + 1:]
    if any(tau in ir.fv(y) for _, ix in t for y in ix):
        raise Unsupported('position of an enumeration used as a value')
    keep, drop = [], []
    for x in eqprove.conj(g):
        (drop if tau in ir.fvB(x) else keep).append(x)
    for x in drop:
        if ir.fvB(x) & (set(b) | set(qs)) - {tau}:
            raise Unsupported('position of an enumeration mixed with other indices')
    dom = band(ge0(V(tau)), lt(V(tau), n))
    ctx = band(*[x for x in keep if not (ir.fvB(x) & (set(b) | set(qs)))])
    if not all(implied(x, band(dom, ctx)) for x in drop) or not implied(dom, band(ctx, *drop)):
        raise Unsupported('only a part of an enumeration is summed')
    b = tuple(v for v in b if v != k) + tuple(qs)
    g = band(*keep)
    if name in PATS:
        s2 = dict(s, **{cv: V(q) for cv, q in zip(canon, qs)})
        dq = band(*[band(ge0(V(q)), lt(V(q), ir.subst(z, s))) for q, z in zip(qs, sizes)])
        ent = e_subst(entry, s2)
        return e_mul([(a, b, band(g, dq), t)], ent)
    mem = E.member([V(q) for q in qs], rest)
    g = band(g, mem)
    return [] if g == FALSE else [(a, b, g, t)]


def bind_all(monos, ks):
    for k in ks:
        out = []
        for m in monos:
            out.extend(bind(m, k))
        monos = out
    return monos


def stored(ind, val):
    """The factors of the stored entries, and functions giving coordinate j and the value at factor indices."""
    C = core.C
    gi, gv = ind.groups[1], val.groups[0]
    if not T.dims_equal(prod(gi), prod(gv)):
        raise RuntimeError('number of values does not match the number of indices')
    if len(gi) == len(gv) and gi != gv and len(gi) > 1 and not all(C.proved(eq(x, y)) for x, y in zip(gi, gv)):
        raise Unsupported('different factorisations of the stored entries')
    fs = gi if len(gi) >= len(gv) else gv

    def conv(g, ks):
        if len(g) == len(fs):
            return list(ks)
        if len(g) == 0:
            return []
        if len(g) == 1:
            lin = ZERO
            for f, i in zip(fs, ks):
                lin = add(mul(lin, f), i)
            return [lin]
        raise Unsupported('different factorisations of the stored entries')
    return list(fs), (lambda j, ks: ind._ielem([K(j)] * (len(ind.groups[0]) > 0) + conv(gi, ks))), (lambda ks: val.E(conv(gv, ks)))


def expand_index(e, ks, fs):
    """All forms of the integer expression e(k) as (variables, condition, expression), enumerations unfolded."""
    dom = band(*[band(ge0(V(k)), lt(V(k), f)) for k, f in zip(ks, fs)])
    forms = [(list(ks), dom, e)]
    # split conditionals
    changed = True
    while changed:
        changed = False
        for i, (vs, c, x) in enumerate(forms):
            at = next(iter(ites(x)), None)
            if at is not None:
                forms[i:i + 1] = [(vs, band(c, at[1]), rep(x, at, at[2])), (vs, band(c, bnot(at[1])), rep(x, at, at[3]))]
                changed = True
                break
    out = []
    for vs, c, x in forms:
        ok = True
        for k in ks:
            ufs = [q for q in set(ir.atoms_of(x)) if q[0] == 'uf' and q[2] and enum_of(q[1]) and enum_of(q[1])[0] in fseq.ENUMS and q[2][0] == V(k)]
            if ufs and all(enum_of(q[1])[0] == enum_of(ufs[0][1])[0] for q in ufs):
                E = fseq.ENUMS[enum_of(ufs[0][1])[0]]
                rest = ufs[0][2][1:]
                f = fs[ks.index(k)]
                if f != E.n(rest):
                    continue
                qs = [T.fresh_bv() for _ in E.vars]
                for j, q in enumerate(qs):
                    x = rep(x, ('uf', f'{E.name}.{j}', (V(k),) + rest), V(q))
                if k in ir.fv(x):
                    ok = False
                c = rep_drop(c, k)
                vs = [v for v in vs if v != k] + qs
                c = band(c, E.member([V(q) for q in qs], rest))
        out.append((vs, c, x) if ok else None)
    return None if None in out else out


def rep_drop(c, k):
    cs = list(c[1]) if c[0] == 'and' else [c]
    return band(*[x for x in cs if k not in ir.fvB(x)])


def maximum(e, ks, fs):
    """The largest value of e over the stored entries, proved; None if it was not found."""
    import vc
    C = core.C
    forms = expand_index(e, ks, fs)
    if forms is None:
        return None
    forms = [f for f in forms if vc.with_assume(f[1], lambda: C.feasible())]
    if not forms:
        return None
    cands = []
    attained = {}
    for vs, c, x in forms:
        for p in [l[1] for l in fseq.literals(c) if l[0] == 'ge0']:
            s = add(p, x)
            if not ir.fv(s) & set(vs) and s not in cands:
                cands.append(s)
        for w in fseq.witnesses(vs, c):
            s = dict(zip(vs, w))
            m, cc = ir.subst(x, s), ir.subst(c, s)
            attained.setdefault(m, []).append(cc)
            if m not in cands:
                cands.append(m)
    for M in cands:
        if not all(vc.with_assume(c, lambda: C.proved(le(x, M))) for vs, c, x in forms):
            continue
        hit = [band(cc, eq(m, M)) for m, cs in attained.items() for cc in cs]
        if C.proved(bor(*hit)):
            return M
    return None


def below(x, p, dom):
    """x = X f + Y < Z f = p, proved digit by digit: X < Z and 0 <= Y < f."""
    import vc
    C = core.C

    def go(x, p, depth):
        if vc.with_assume(dom, lambda: C.proved(lt(x, p))):
            return True
        if depth > 3:
            return False
        for f in sorted({a for m in p.t if len(m) > 1 for a in m}, key=repr):
            fa = ir.atom(f)
            Z = ir.monic_div(p, fa)
            if Z is None:
                continue
            X, Y = {}, {}
            for m, c in x.t.items():
                if f in m:
                    r = list(m)
                    r.remove(f)
                    X[tuple(r)] = c
                else:
                    Y[m] = c
            X, Y = P(X), P(Y)
            if vc.with_assume(dom, lambda: C.proved(ge0(Y)) and C.proved(lt(Y, fa))) and go(X, Z, depth + 1):
                return True
        return False
    return ge0(p) != FALSE and any(len(m) > 1 for m in p.t) and go(x, p, 0)


def coo(indices=None, values=None, size=None, *, dtype=None, device=None, requires_grad=False, **kw):
    C = core.C
    import fakes
    if not isinstance(indices, SymTensor):
        indices = fakes.as_tensor(indices)
    if not isinstance(values, SymTensor):
        values = fakes.as_tensor(values)
    dev = T.mkdev(device) if device is not None else values._device
    dt = dtype or values._dtype
    if len(indices.groups) != 2:
        raise RuntimeError('indices must be sparse_dim x nnz')
    nd = prod(indices.groups[0]).const()
    if nd is None or len(values.groups) != 1:
        raise Unsupported('hybrid sparse tensor')
    if indices._ielem is None:
        if prod(indices.groups[1]) == ZERO and size is not None:
            ps = [top(x) for x in size]
            r = SymTensor([(p,) for p in ps], lambda fl: [], dt, dev)
            r.sparse = True
            return r
        raise Unsupported('indices of a sparse tensor that are not integers')
    fs, at, val = stored(indices, values)
    ks = [T.fresh_bv() for _ in fs]
    kv = [V(k) for k in ks]
    dom = band(*[band(ge0(x), lt(x, f)) for x, f in zip(kv, fs)])
    if size is None:
        if not C.decide(le(ONE, prod(fs))):
            ps = [ZERO] * nd
        else:
            ps = []
            for j in range(nd):
                m = maximum(at(j, kv), ks, fs)
                if m is None:
                    raise Unsupported('the inferred size of a sparse tensor')
                ps.append(add(m, ONE))
        bounds = []
    else:
        ps = [top(x) for x in size]
        if len(ps) != nd:
            raise Unsupported('hybrid sparse tensor')
        bounds = [lt(at(j, kv), p) for j, p in enumerate(ps) if not below(at(j, kv), p, dom)]
    r = reordered(fs, at, val, ps, size, dt, dev)
    if r is not None:
        r._rg = values._rg
        return r
    bounds += [ge0(at(j, kv)) for j in range(nd)]
    bad = bor(*[bnot(x) for x in bounds])
    import vc
    if vc.with_assume(dom, lambda: C.feasible(bad)):
        if C.choose(2, 'sparse index out of range') == 0:
            C.assume(dom)
            C.assume(bad)
            if not C.feasible():
                raise core.Infeasible()
            raise RuntimeError('size is inconsistent with indices')
    if any(p == ZERO for p in ps):
        pass

    def el(flat):
        it = iter(flat)
        pos = [ZERO if p == ONE else next(it) for p in ps]
        kk = [T.fresh_bv() for _ in fs]
        kx = [V(k) for k in kk]
        g = band(*[band(ge0(x), lt(x, f)) for x, f in zip(kx, fs)])
        for j, q in enumerate(pos):
            g = band(g, eq(at(j, kx), q))
        monos = [(a, b + tuple(kk), band(g, gg), t) for a, b, gg, t in val(kx)]
        return bind_all([m for m in monos if m[2] != FALSE], kk)
    r = SymTensor([(p,) for p in ps], el, dt, dev)
    r.sparse = True
    r._rg = values._rg
    return r


def reordered(fs, at, val, ps, size, dt, dev):
    """The stored entries of a coalesced tensor with its coordinates in another order: that tensor with the dimensions in that order."""
    if size is None or len(fs) != 1:
        return None
    k = T.fresh_bv()
    v = val([V(k)])
    if len(v) != 1 or v[0][0] != 1 or v[0][1] or v[0][2] != TRUE or len(v[0][3]) != 1:
        return None
    nm, ix = v[0][3][0]
    p = nm[:-2]
    if not nm.endswith('.v') or p not in PRODUCT or ix[0] != V(k) or [V(a) for a in PATS[p][0]] != list(ix[1:]) or fs[0] != PATS[p][4]:
        return None
    groups, entry = PRODUCT[p]
    order = []
    for j in range(len(ps)):
        hits = [q for q in range(len(groups)) if at(j, [V(k)]) == ir.mkuf(f'{p}.{q}', tuple(ix))]
        if len(hits) != 1:
            return None
        order.append(hits[0])
    if sorted(order) != list(range(len(groups))) or not all(z == prod(groups[q]) or core.C.proved(eq(z, prod(groups[q]))) for z, q in zip(ps, order)):
        return None
    new = [groups[q] for q in order]

    def el(fl):
        parts = T.split_flat(new, fl)
        return entry([x for q in range(len(groups)) for x in parts[order.index(q)]])
    r = SymTensor(new, el, dt, dev)
    r.sparse = True
    return r


def eye(n, m=None, *, dtype=None, device=None, layout=None, **kw):
    if m is not None:
        raise Unsupported('rectangular eye')
    p = top(n)
    r = SymTensor([(p,), (p,)], lambda fl: e_guard(T.e_const(1), eq(fl[0], fl[1]) if fl else TRUE), dtype or T.F32, T.mkdev(device))
    if layout is COO:
        r.sparse = True
    elif layout not in (None, STRIDED):
        raise Unsupported('layout')
    return r


def mask_select(x, d, mask):
    """x[..., mask, ...] for a one-dimensional mask."""
    if len(mask.groups) != 1:
        raise Unsupported('mask of several dimensions')
    n = T.single(x, d)
    if not T.dims_equal(n, prod(mask.groups[0])):
        raise IndexError('the shape of the mask does not match')
    q = ir_fresh()
    dom = band(ge0(V(q)), lt(V(q), n))
    cond = mask.bcond([V(q)] if mask.groups[0] else [])
    r = subsequence(x, d, n, q, cond)
    if r is not None:
        return r
    e = fseq.make([q], dom, cond)
    return T.remap(x, d, e.n(), lambda t: e.at(0, t), view=False)


def subsequence(x, d, n, q, cond):
    """The selected part of an enumeration of numbers, when the mask is a condition on the numbers: the enumeration with that condition added."""
    if d != 0 or len(x.groups) != 1 or x._ielem is None:
        return None
    e = x._ielem([V(q)] if x.groups[0] else [])
    for nm, E in list(fseq.ENUMS.items()):
        if len(E.vars) != 1:
            continue
        at = next((a for m in e.t for a in m if a[0] == 'uf' and a[1] == nm + '.0' and a[2][0] == V(q)), None)
        if at is None or n != E.n(at[2][1:]):
            continue
        r = ir_fresh()
        c2, e2 = rep(cond, at, V(r)), rep(e, at, V(r))
        if q in ir.fvB(c2) or q in ir.fv(e2):
            continue
        F = fseq.make([r], E.member([V(r)], at[2][1:]), c2)
        ix = lambda fl: ir.subst(e2, {r: F.at(0, fl[0] if fl else ZERO)})  # noqa: E731
        return SymTensor([(F.n(),)], lambda fl: T.e_intval(ix(fl)), x._dtype, x._device, ielem=ix)
    return None


def run_lengths(x):
    """unique_consecutive of the row numbers of a coalesced matrix: the rows with a stored entry in increasing order, and how many each has."""
    C = core.C
    if len(x.groups) != 1 or x._ielem is None:
        raise Unsupported('unique')
    k = ir_fresh()
    e = x._ielem([V(k)] if x.groups[0] else [])
    at = next(iter(e.t), ())
    h = enum_of(at[0][1]) if len(e.t) == 1 and len(at) == 1 and e.t[at] == 1 and at[0][0] == 'uf' else None
    if h is None or h[0] not in PATS or h[1] != 0 or at[0][2][0] != V(k):
        raise Unsupported('unique of other numbers than the rows of a coalesced matrix')
    rest = at[0][2][1:]
    if h[0] in PRODUCT:
        raise Unsupported('single coordinates of a product dimension')
    args, sizes, canon, entry, n, has = PATS[h[0]]
    if len(sizes) != 2 or not T.dims_equal(prod(x.groups[0]), ir.subst(n, dict(zip(args, rest)))):
        raise Unsupported('unique')
    cn = h[0] + '.cnt'
    rows, cols = [ir.subst(z, dict(zip(args, rest))) for z in sizes]
    if cn not in ir.UFAXIOMS:
        ir.UFAXIOMS[cn] = lambda r, *a: [ge0(ir.mkuf(cn, (r,) + a)), le(ir.mkuf(cn, (r,) + a), ir.subst(sizes[1], dict(zip(args, a))))]
    r = ir_fresh()
    E = fseq.make([r], band(ge0(V(r)), lt(V(r), rows)), le(ONE, ir.mkuf(cn, (V(r),) + rest)))
    at_ = lambda fl: E.at(0, fl[0] if fl else ZERO)  # noqa: E731
    ct = lambda fl: ir.mkuf(cn, (at_(fl),) + rest)  # noqa: E731
    mk_ = lambda f: SymTensor([(E.n(),)], lambda fl: T.e_intval(f(fl)), T.I64, x._device, ielem=f)  # noqa: E731
    return mk_(at_), mk_(ct)


def ir_fresh():
    import vc
    return vc.uvar('m')


def all_true(mask):
    """torch.all of a one-dimensional integer mask; exact when every literal is linear in the position."""
    import eqprove
    if mask.bcond is None or len(mask.groups) != 1:
        raise Unsupported('torch.all')
    if not mask.groups[0]:
        return mkb(mask.bcond([]))
    n = prod(mask.groups[0])
    import vc
    v = vc.uvar('m')
    c = mask.bcond([V(v)])
    for l in (c[1] if c[0] == 'and' else (c,)):
        if l == TRUE:
            continue
        if l[0] != 'ge0' or v in ir.fv(l[1]) and (l[1].t.get((('v', v),), None) is None or eqprove.lin_in(l[1], v) is None):
            raise Unsupported('torch.all of a nonlinear mask')
    return mkb(bor(le(n, ZERO), band(ir.subst(c, {v: ZERO}), ir.subst(c, {v: sub(n, ONE)}))))


def setitem(x, ix, v):
    """x[i] = v for an integer (or an integer tensor of distinct places, see the callers) and a constant v."""
    C = core.C
    if isinstance(v, SymTensor) and len(x.groups) == 2 and core.isint(ix):
        return setrow(x, ix, v)
    if isinstance(ix, SymTensor) and len(ix.groups) == 1 and ix._ielem is not None and ix.bcond is None and core.isint(v) and len(x.groups) == 1:
        return setplaces(x, ix, v)
    if not core.isint(v) and not (isinstance(v, (float, T.Fraction)) and not isinstance(v, bool)):
        raise Unsupported('tensor item assignment')
    if isinstance(ix, tuple) or not core.isint(v) or len(x.groups) != 1:
        return setconst(x, ix if isinstance(ix, tuple) else (ix,), v)
    n = prod(x.groups[0])
    if isinstance(ix, SymTensor) and not ix.groups and ix._ielem is not None:
        ix = ix.item()
    if not core.isint(ix):
        raise Unsupported('tensor item assignment')
    i = T.norm_index(ix, n)
    q = top(v)
    old, oldi = x._elem, x._ielem
    r = x._snap()

    def pos(fl):
        return fl[0] if x.groups[0] else ZERO
    r._elem = lambda fl: T.e_add(e_guard(old(fl), bor(lt(pos(fl), i), lt(i, pos(fl)))), e_guard(T.e_intval(q) if x._ielem is not None else T.e_const(q.const()), eq(pos(fl), i)))
    if oldi is not None:
        r._ielem = lambda fl: ir.ite(eq(pos(fl), i), q, oldi(fl))
    x._inplace(r)


def setplaces(x, ix, v):
    """x[indices] = v for a constant v"""
    C = core.C
    import vc
    n, m = prod(x.groups[0]), prod(ix.groups[0])
    q = top(v)
    k = V(vc.uvar('m'))
    e = ix._ielem([k] if ix.groups[0] else [])
    dom = band(ge0(k), lt(k, m))
    bad = bnot(band(ge0(e), lt(e, n)))
    C._axioms(band(dom, bad))
    if not vc.with_assume(dom, lambda: C.proved(bnot(bad))):
        raise Unsupported('an index tensor that may be out of range')
    among(ix, ZERO)
    old, oldi = x._elem, x._ielem
    ixs = ix._snap()

    def here(fl):
        return among(ixs, fl[0] if x.groups[0] else ZERO)
    r = x._snap()
    r._elem = lambda fl: T.e_add(e_guard(old(fl), bnot(here(fl))), e_guard(T.e_intval(q) if oldi is not None else T.e_const(q.const()), here(fl)))
    if oldi is not None:
        r._ielem = lambda fl: ir.ite(here(fl), q, oldi(fl))
    x._inplace(r)


def setconst(x, ix, v):
    """x[i, ..., j] = v for integers, full slices and a constant"""
    if not x._dtype.is_floating_point and not core.isint(v) or core.isint(v) and top(v).const() is None:
        raise Unsupported('tensor item assignment')
    n, used = len(x.groups), sum(1 for i in ix if i is not Ellipsis)
    if used > n:
        raise IndexError('too many indices for tensor')
    if not any(i is Ellipsis for i in ix):
        ix = ix + (Ellipsis,)
    at, d = {}, 0
    for i in ix:
        if i is Ellipsis:
            d += n - used
        elif core.isint(i):
            at[d] = T.norm_index(i, prod(x.groups[d]))
            d += 1
        elif isinstance(i, slice) and i == slice(None):
            d += 1
        else:
            raise Unsupported('tensor item assignment')
    c = top(v).const() if core.isint(v) else T.Fraction(v)
    x.E([ZERO] * sum(map(len, x.groups)))
    old, oldi, groups = x._elem, x._ielem, list(x.groups)
    r = x._snap()

    def place(g, part):
        acc = ZERO
        for f, i in zip(g, part):
            acc = add(mul(acc, f), i)
        return acc

    def here(fl):
        parts = T.split_flat(groups, fl)
        return band(*[eq(place(groups[d], parts[d]), p) for d, p in at.items()])
    r._elem = lambda fl: T.e_add(e_guard(old(fl), bnot(here(fl))), e_guard(T.e_const(c), here(fl)))
    if oldi is not None:
        r._ielem = lambda fl: ir.ite(here(fl), K(c), oldi(fl))
    x._inplace(r)


def setrow(x, ix, v):
    """x[i] = v; the last step of x[i] += c, where v is the row view that was written."""
    i = T.norm_index(ix, prod(x.groups[0]))
    if v.storage is x.storage:
        if v._rowof is None or v._rowof[0] is not x or v._rowof[1] != i or v._rowof[2] != x.version or v.version != x.storage.version:
            raise Unsupported('overlapping row assignment')
    elif x.version != x.storage.version:
        raise Unsupported('use of a view after an in-place write')
    if len(v.groups) != 1 or not T.dims_equal(prod(v.groups[0]), prod(x.groups[1])) or v.groups[0] != x.groups[1]:
        raise Unsupported('row assignment that broadcasts')
    if v._ielem is None or x._ielem is None:
        raise Unsupported('row assignment')
    rows = len(x.groups[0])
    vi, xi = v._ielem, x._ielem

    def iel(fl):
        d = fl[0] if rows else ZERO
        if d.const() is not None and i.const() is not None:
            return vi(list(fl[rows:])) if d == i else xi(list(fl))
        return ir.ite(eq(d, i), vi(list(fl[rows:])), xi(list(fl)))
    r = SymTensor(x.groups, lambda fl: T.e_intval(iel(fl)), x._dtype, x._device, ielem=iel)
    if x.storage.frozen:
        core.C.frozen_hits.append(x.storage.frozen)
    x.version = x.storage.version
    x._inplace(r)


def repeat_interleave(x, k):
    if len(x.groups) != 1:
        raise Unsupported('repeat_interleave')
    p = top(k)
    n = len(x.groups[0])
    m = 0 if p == ONE else 1

    def el(base):
        return None if base is None else lambda fl: base(list(fl[:n]))
    return x._like([x.groups[0] + ((p,) if m else ())], el(x.E), view=False, ielem=el(x._ielem))


def cat(sps, d, offs):
    return True


def permuted(sp, dims):
    return True
