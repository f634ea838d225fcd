"""Specification vocabulary shared by the contracts (exact reals, filters of even length L = 2h)."""
import core
import ir
import tensor as T
import vc
import eqprove
import fakes
from core import mk, top
from ir import P, K, V, ZERO, ONE, TRUE, add, sub, mul, neg, scale, le, lt, eq, ge0, bnot, band, bor, ite
from tensor import SymTensor, F64, F32, e_atom, e_add, e_guard, e_mul, e_sum, e_sum1, e_const, e_scale, prod, Storage

MODES = ('zero', 'constant', 'reflect', 'periodic', 'symmetric')


def symidx(q, n):
    """Half-sample mirror of q into [0, n)."""
    c = q.const()
    return ir.mkuf('symidx', (q, n))


def extend(entry, q, n, mode):
    """Entry of the boundary extension at position q of a signal of length n; entry(i) for 0 <= i < n."""
    if mode == 'zero':
        return e_guard(entry(q), band(ge0(q), lt(q, n)))
    f = {'constant': T.ext_constant, 'reflect': T.ext_reflect, 'periodic': T.ext_periodic, 'symmetric': symidx}[mode]
    return entry(f(q, n))


def setup_filters(w, dtype=F64):
    """The specification uses the filters rounded once to the data type."""
    for f in ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi'):
        T.ROUNDED.add(w.pre + f)
        for t in ('', 'float64:', 'float32:', 'float16:', 'bfloat16:'):
            eqprove.FILTERS.add(t + w.pre + f)
    T.BASE[0] = dtype


def size_seq(name, n0, step, dom=None):
    """Integer sequence name(i): name(0) = n0, name(i+1) = step(name(i)); dom(i, value) -> facts for i >= 0."""
    def fold(args):
        p = args[0]
        c0 = p.t.get((), 0)
        if p.const() == 0:
            return n0
        if c0 >= 1:
            prev = ir.mkuf(name, (sub(p, ONE),))
            return step(prev)
        return None

    def axiom(p):
        a = ir.atom(('uf', name, (p,)))
        return dom(p, a) if dom else []
    ir.UF_FOLD[name] = fold
    ir.UFAXIOMS[name] = axiom
    return lambda i: ir.mkuf(name, (i,))
