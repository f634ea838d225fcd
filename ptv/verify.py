"""Runs the contracts of one function on every path and collects obligations."""
import dis
import re
import sys
import time
import traceback
import types

import core
import eqprove
import ir
import tensor as T
import vc
import load
import fseq
import sparse
from core import Unsupported
from ir import TRUE, band


class Result:
    def __init__(self):
        self.obs = []
        self.seen = set()
        self.paths = 0
        self.returns = 0
        self.reached = 0
        self.raises = 0
        self.error = None
        self.invs = {}

    def add(self, spec, ctx):
        for o in ctx.obligations:
            key = (o['name'], o.get('key'))
            if key in self.seen:
                continue
            self.seen.add(key)
            o = {k: v for k, v in o.items() if k != 'key'}
            o['name'] = f'{spec}: {o["name"]}'
            self.obs.append(o)


_record = core.Ctx.record
_oblige = core.Ctx.oblige


def _tag(self, n):
    if len(self.obligations) > n:
        self.obligations[-1]['key'] = tuple(t[0] for t in self.trace)
        self.obligations[-1]['steps'] = tuple(self.__dict__.get('steps', ()))


def record(self, name, status, **kw):
    n = len(self.obligations)
    _record(self, name, status, **kw)
    _tag(self, n)


def oblige(self, name, b, detail=None):
    n = len(self.obligations)
    r = _oblige(self, name, b, detail)
    _tag(self, n)
    return r


core.Ctx.record = record
core.Ctx.oblige = oblige


def reset():
    for k in list(ir.UF_FOLD):
        if k not in ('pow2',):
            del ir.UF_FOLD[k]
    for k in list(ir.UFAXIOMS):
        if k not in ('pow2', 'flog2', 'nlog2', 'swtmax'):
            del ir.UFAXIOMS[k]
    eqprove.UNFOLD.clear()
    eqprove.FILTERS.clear()
    T.ROUNDED.clear()
    T.BASE[0] = T.F64
    eqprove.RULES.clear()
    ir._ats.clear()
    fseq.reset()
    sparse.reset()


FRAME = ' is not modified'


def frame_hits(C):
    """Also on paths that end inside a loop or with an exception: nothing owned by the caller was written."""
    if C.frozen_hits and not any(o['name'].endswith(FRAME) for o in C.obligations):
        st = C.check(TRUE)
        if st != 'unsat':
            C.record('caller-owned data' + FRAME, {'sat': 'refuted'}.get(st, 'unknown'), backend='frame', time=0,
                     detail=f'written: {sorted(set(C.frozen_hits))}', model=C.model_dict() if st == 'sat' else None)


def run(spec, body, deadline=120, store=None, debug=False, maxpaths=core.MAXPATHS):
    """body() is executed once per path; it builds the inputs, calls the code and states the obligations."""
    res = Result()
    t0 = time.time()
    store = {} if store is None else store
    try:
        for kind, val, ctx in core.explore(body, store, t0 + deadline, maxpaths):
            res.paths += 1
            core.set_ctx(ctx)
            if kind == 'return':
                res.returns += 1
                if ctx.check(TRUE) == 'sat':
                    res.reached += 1
            for lid, inv in ctx.notes:
                res.invs[lid] = inv
            frame_hits(ctx)
            res.add(spec, ctx)
            core.set_ctx(None)
    except Unsupported as e:
        res.error = f'unsupported: {e}'
        if debug:
            traceback.print_exc()
        # a concrete input of the path that could not be analysed, for the run-time contracts
        res.model = (store.get('hints') or [None])[-1]
        try:
            if res.model is None and core.C is not None and core.C.check(TRUE) == 'sat':
                res.model = core.C.model_dict()
        except Exception:  # noqa: BLE001
            pass
    except RecursionError as e:
        res.error = f'recursion: {e}'
    except Exception as e:  # noqa: BLE001  (a defect of the verifier, never a verdict on the code)
        res.error = f'internal: {type(e).__name__}: {e}'
        if debug:
            traceback.print_exc()
        else:
            res.tb = traceback.format_exc()[-1500:]
    finally:
        c = core.C
        if res.error and c is not None:
            res.add(spec, c)
        core.set_ctx(None)
    # obligations of a loop body run under an invariant that was weakened afterwards say nothing
    def superseded(o):
        return any(isinstance(store.get(k), vc.LoopInfo) and any(c2 > c and ph == 'step' for c2, ph in store[k].plan.items()) for k, c in o.pop('steps', ()))
    res.obs = [o for o in res.obs if not superseded(o)]
    if res.error is None and res.returns == 0:
        res.error = 'no path returns: the precondition is never satisfiable'
    if res.error is None and not res.obs:
        res.error = 'no obligation was generated'
    if res.error is None and res.reached == 0:
        res.error = 'no returning path was shown to be reachable'
    if res.error:
        res.obs.append(dict(name=f'{spec}: every path analysed', status='unsupported', backend='-', time=0, detail=res.error, model=getattr(res, 'model', None)))
    res.wall = time.time() - t0
    return res


def call(name, f, *a, allow=(), **k):
    """Call the code; an exception on a reachable path refutes the obligation that it returns."""
    C = core.C
    try:
        r = f(*a, **k)
    except Exception as e:  # noqa: BLE001
        if allow and isinstance(e, allow):
            raise core.PathEnd() from None
        st = C.check(TRUE)
        if st == 'unsat':
            raise core.Infeasible() from None
        where = origin(e)
        if not from_code(e):
            raise Unsupported(f'{type(e).__name__} in the library model: {e} {where}') from e
        C.record(f'{name} returns for every input of its domain', {'sat': 'unknown' if C.__dict__.get('ghost_reals') else 'refuted'}.get(st, 'unknown'), backend='z3', time=0,
                 model=C.model_dict() if st == 'sat' else None, detail=f'raises {type(e).__name__}: {e} {where} with {C.model_dict()}')
        raise core.PathEnd() from None
    C.record(f'{name} returns for every input of its domain', 'discharged', backend='path enumeration', time=0)
    return r


def raises(name, f, exc=Exception):
    """Obligation: every execution of f() raises exc."""
    C = core.C
    try:
        f()
    except exc as e:
        st = C.check(TRUE)
        if st == 'unsat':
            raise core.Infeasible() from None
        if not from_code(e):
            raise Unsupported(f'{type(e).__name__} in the library model: {e} {origin(e)}') from e
        C.record(f'{name} raises', 'discharged', backend='path enumeration', time=0)
        return True
    except Exception as e:  # noqa: BLE001
        detail = f'raises {type(e).__name__}: {e}'
    else:
        detail = 'returns'
    st = C.check(TRUE)
    if st == 'unsat':
        raise core.Infeasible()
    C.record(f'{name} raises', {'sat': 'refuted'}.get(st, 'unknown'), backend='z3', time=0, detail=f'{detail} with {C.model_dict()}',
             model=C.model_dict() if st == 'sat' else None)
    return False


def origin(e):
    own = [x for x in traceback.extract_tb(e.__traceback__) if x.filename.startswith('<sym')]
    return f'{own[-1].filename} in {own[-1].name}' if own else ''


MODELS = ('core', 'vc', 'ir', 'tensor', 'fakes', 'sparse', 'fseq', 'eqprove', 'load', 'transform', 'verify')


def from_code(e):
    """The exception is one that the code raises or meets, or one that the library documents; not one of the library model."""
    if isinstance(e, (NameError, RecursionError)):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    code = tb.tb_frame.f_code
    explicit = dis.opname[code.co_code[tb.tb_lasti]] in ('RAISE_VARARGS', 'RERAISE')
    if not code.co_filename.startswith('<sym'):
        return explicit and isinstance(e, (ValueError, RuntimeError, IndexError, KeyError, ZeroDivisionError, core.LibTypeError))
    if explicit:
        return True
    if isinstance(e, AttributeError):  # an attribute that the model of the library lacks
        return type(getattr(e, 'obj', None)).__module__ not in MODELS and not isinstance(getattr(e, 'obj', None), (type, types.ModuleType, types.FunctionType))
    if isinstance(e, TypeError):  # an argument or operation that the model lacks
        names = {c.__name__ for m in MODELS if m in sys.modules for c in vars(sys.modules[m]).values() if isinstance(c, type)} - {'tuple', 'list', 'dict', 'str', 'int', 'NoneType'}
        return not re.search('unexpected keyword|positional|multiple values|not supported between', str(e)) and not any(re.search(rf'\b{n}\b', str(e)) for n in names)
    return True


def oblige_eq(name, a, b):
    """Obligation: value a (from the code) equals value b (from the specification)."""
    C = core.C
    t = time.time()
    ok, why, st = status_eq(a, b)
    o = dict(backend='z3', time=round(time.time() - t, 4))
    if ok:
        C.record(name, 'discharged', **o)
    else:
        C.record(name, 'refuted' if st == 'sat' else 'unknown', detail=str(why)[:1500], model=C.model_dict() if st == 'sat' else None, **o)
    return ok


def status_eq(a, b):
    C = core.C
    if isinstance(a, vc.SymTensor) and isinstance(b, vc.SymTensor):
        if len(a.groups) != len(b.groups):
            return False, f'{len(a.groups)} dimensions instead of {len(b.groups)}', C.check(TRUE)
        if a._dtype is not b._dtype:
            return False, f'dtype {a._dtype} instead of {b._dtype}', C.check(TRUE)
        if a._device != b._device:
            return False, f'device {a._device} instead of {b._device}', C.check(TRUE)
        for d, (g, h) in enumerate(zip(a.groups, b.groups)):
            p, q = vc.prod(g), vc.prod(h)
            if p != q:
                st = C.check(ir.bnot(ir.eq(p, q)))
                if st != 'unsat':
                    return False, f'dimension {d} has size {p} instead of {q}, e.g. {C.model_dict()}', st
        st, why = vc.entries_status(a, b)
        return st == 'unsat', why and f'{why}; e.g. {C.model_dict()}', st
    if core.isint(a) and core.isint(b):
        st = C.check(ir.bnot(ir.eq(core.top(a), core.top(b))))
        return st == 'unsat', f'{a} instead of {b}, e.g. {C.model_dict()}', st
    if type(a) is not type(b) and not (isinstance(a, vc.SymTensor) or isinstance(b, vc.SymTensor)):
        pass
    if isinstance(a, vc.SymTensor) != isinstance(b, vc.SymTensor):
        return False, f'{type(a).__name__} instead of {type(b).__name__}', C.check(TRUE)
    ok, why = vc.values_equal(a, b)
    return ok, why, 'unknown'
