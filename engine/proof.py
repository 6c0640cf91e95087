"""Runs one function-level proof: executes the harness symbolically and discharges its obligations."""
import time, subprocess, tempfile, os
import z3
from spec import *
from vc import cvc5_check
def discharge(ex, o, depths=(1, 2, 3), timeout=20000, deadline=None):
    t = time.time()
    goal = z3.Not(o.cond)
    res, model = 'unknown', None
    q = z3.Solver(); q.add(*o.pc, goal)
    def ints(secs):
        if cvc5_check(q, secs, True) == 'unsat': o.status, o.backend, o.time = 'discharged', 'cvc5 (bit-vectors as integers)', time.time() - t; return True
    if ex.cfg.get('ints') and ints(10): return
    r, _ = ex.inc_check(o.pc, goal)
    if r == 'unsat': o.status, o.backend, o.time = 'discharged', 'z3', time.time() - t; return
    if r != 'sat' and not ex.cfg.get('ints') and ints(8): return   # linear arithmetic over machine words: translated to integers
    for d in depths:
        if deadline and time.time() > deadline: break
        s = z3.Solver(); s.set('timeout', ex.cfg.get('timeout', timeout))
        for c in o.pc: s.add(c)
        s.add(goal); n = 0
        if ex.spec is not None:
            ax = ex.spec.axioms(list(o.pc) + [goal], d); n = len(ax)
            for a in ax: s.add(a)
        r = s.check()
        if r == z3.unsat: o.status, o.backend, o.time = 'discharged', 'z3', time.time() - t; return
        if r == z3.sat: res, model = 'sat', s.model()
        else:
            res = 'unknown'
            q = cvc5_check(s, 20)
            if q == 'unsat': o.status, o.backend, o.time = 'discharged', 'cvc5', time.time() - t; return
        if ex.spec is None or n == 0: break
    o.time = time.time() - t
    o.status = 'failed' if res == 'sat' else 'undecided'
    o.detail += f'\nsolver answer: {res}; path: {" ".join(o.notes[-30:])}'
    if model is not None:
        o.detail += '\ncounterexample to induction / counter-model (scalars): ' + ', '.join(f'{d.name()}={model[d]}' for d in model.decls()[:80] if d.arity() == 0 and z3.is_bv(model[d]) if '!' not in d.name() or d.name().startswith('lv_'))[:3000]
def run_proof(fn, module, limit):
    """fn(module) -> Executor with obligations; vacuity: every cover point must be reachable"""
    import ctx
    ctx.LIMIT = limit
    t = time.time()
    ex = fn(module)
    tx = time.time() - t
    deadline = t + limit + 40
    obl = []; nfailed = 0
    for o in ex.obls:
        if o.status is None:
            if z3.is_true(o.cond): o.status, o.backend = 'discharged', 'syntactic'
            elif nfailed >= 3 and time.time() - t > 150: o.status, o.detail = 'undecided', 'not attempted: others failed already'
            else: discharge(ex, o, deadline=deadline)
            if o.status == 'failed' and ex.shaky: o.status, o.detail = 'undecided', 'the counter-model is not conclusive: the solver gave no answer on the loop invariants ' + ', '.join(sorted(set(ex.shaky))[:8]) + o.detail
            nfailed += o.status == 'failed'
        obl.append(dict(name=o.name, where=o.where, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time, 3), detail=o.detail, proof=fn.__name__))
    return dict(obligations=obl, doc=(fn.__doc__ or '').strip(), assumed=ex.assumed, functions=[ex.m.fns[f]['dem'] for f in ex.verified_fns], loops=ex.loop_report, trivial=ex.stats['trivial'], paths=ex.stats['paths'], solver_time=ex.stats['feas_time'] + sum(o.time for o in ex.obls), stats=ex.stats, unsettled=sorted(set(ex.shaky)), exec_time=tx, covers=getattr(ex, 'covers', None))
