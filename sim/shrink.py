"""Minimisation of a failing run.

`fails(spec)` runs a spec and returns (kind, record) if it violates the
property, where record is the schedule which was used (fine mode), else None.
A smaller spec is kept only if it still fails in the same way."""

import time

from . import finerun
from .seams import rng_of


def ddmin(items, test, deadline):
    """Drop as many items as possible"""
    size = max(1, len(items) // 2)
    while True:
        changed = False
        i = 0
        while i < len(items) and time.time() < deadline:
            rest = items[:i] + items[i + size:]
            if test(rest):
                items = rest
                changed = True
            else:
                i += size
        if time.time() >= deadline:
            return items
        if size == 1 and not changed:
            return items
        if size > 1:
            size = max(1, size // 2)


def shrink_coarse(spec, kind, fails, step=None, seconds=60):
    deadline = time.time() + seconds

    def test(ops):
        got = fails(dict(spec, ops=ops))
        return got is not None and got[0] == kind

    ops = spec['ops']
    if step is not None and test(ops[:step + 1]):
        ops = ops[:step + 1]
    ops = ddmin(ops, test, deadline)
    # simpler operations: the owner's thread, fewer arguments
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for i, op in enumerate(ops):
            for new in simpler(op):
                cand = ops[:i] + [new] + ops[i + 1:]
                if test(cand):
                    ops = cand
                    changed = True
                    break
    return dict(spec, ops=ops)


def simpler(op):
    out = []
    if op[0] % 100:
        out.append([op[0] - op[0] % 100] + op[1:])
    if op[1] == 'add':
        if len(op) > 11:
            out.append(op[:11])
            out += [op[:11] + [op[11][:i] + op[11][i + 1:]]
                    for i in range(len(op[11]))]
        plain = list(op)
        for i, value in ((3, None), (6, []), (7, []), (10, None), (4, 0),
                         (5, 'normal'), (8, 1), (9, 1)):
            if plain[i] != value:
                out.append(plain[:i] + [value] + plain[i + 1:])
    elif op[1] == 'action' and len(op) > 5 and op[5] is not None:
        out.append(op[:5] + [None])
    elif op[1] == 'listen' and len(op) > 3 and op[3]:
        out.append(op[:3] + [0])
    elif op[1] == 'dispatch' and op[2] > 1:
        out.append(op[:2] + [1])
    return out


def shrink_fine(spec, kind, fails, record, seconds=90):
    """record: the switches of the failing run"""
    deadline = time.time() + seconds
    # 1. fewer operations, each candidate under several random schedules
    base = {k: v for k, v in spec.items() if k != 'switches'}
    sched = base.get('sched') or {'seed': 0, 'p': 0.01, 'p_sync': 0.3,
                                  'hot': 0.05}
    best = [dict(base, switches=record), record]

    def attempt(cand, tries):
        if not finerun.well_formed(cand):
            return False
        for i in range(tries):
            if time.time() > deadline:
                return False
            trial = dict(cand)
            trial.pop('switches', None)
            new = dict(sched)
            if i:
                new['seed'] = rng_of('shrink', i).getrandbits(40)
                new['p'] = [0.003, 0.01, 0.03, 0][i % 4]
                new['p_sync'] = [0.3, 0.1, 0.6][i % 3]
                new['hot'] = [0.1, 0.03, 0][i % 3]
            trial['sched'] = new
            got = fails(trial)
            if got is not None and got[0] == kind:
                trial['sched'] = None
                best[0] = dict(trial, switches=got[1])
                return True
        return False

    def with_ops(ops):
        programs = [[] for _ in spec['programs']]
        setup = []
        for t, op in ops:
            (setup if t < 0 else programs[t]).append(op)
        return dict(base, setup=setup, programs=programs)

    ops = [(-1, op) for op in spec['setup']]
    ops += [(t, op) for t, prog in enumerate(spec['programs']) for op in prog]
    ddmin(ops, lambda o: attempt(with_ops(o), 40), time.time() + seconds * 0.6)
    # 2. fewer switches
    cur = best[0]

    def fewer(switches):
        got = fails(dict(cur, switches=switches))
        return got is not None and got[0] == kind

    if fewer(cur['switches']):
        kept = ddmin(cur['switches'], fewer, deadline)
        cur = dict(cur, switches=kept)
    return cur
