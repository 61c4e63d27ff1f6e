"""C06: one clean run repairs any failure, a further run changes nothing."""

import command
import engine
import project as pj
from engine import Violation, expect_ok, ok

ID = 'C06'
RULE = ('a command on a project with a past is tried 1-4 times with faults '
        '(errors, interrupts, kills, power cuts, leftovers of killed runs), '
        'each attempt starting from what the one before left, then run once '
        'without faults and once more; the files must be those of a single '
        'clean run, the last run must change no byte and every run must end '
        'within a bound of operations; non-trivial when a fault fired and '
        'changed or left something; distinct by command, faults and contents')
COUNTS = {'quick': 3000, 'thorough': 40000}


def gen(rng, tier):
    sc = command.gen(rng, stdout=False)
    sc['env'] = pj.random_env(rng)
    sc['attempts'] = []
    sc['fseed'] = rng.randrange(1 << 30)
    sc['n'] = 3
    return sc


def bound(ref):
    return 40 * ref.ops + 4000


def files(state):
    return {p: b for p, b in state.items() if b is not None}


def execute(ctx, sc):
    h = command.past(ctx, sc)
    call, env, pre = sc['call'], sc['env'], h.state
    what = f'{call["tool"]} ({call["via"]})'
    ref, want = ctx.run(pre, call, env)
    expect_ok(ref, call)
    if sc['attempts']:
        series = [sc['attempts']]
    else:
        rng = pj.seeded('c06', sc['fseed'])
        series = []
        for _ in range(sc.get('n', 3)):
            s = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
                p = command.plans(rng, ref.log, 1, 'all')
                if not p:
                    continue
                e = dict(env, power_seed=rng.randrange(1 << 20),
                         pid=rng.randrange(100, 30000),
                         rng=rng.randrange(1 << 30))
                if rng.random() < .2:
                    e['pid'] = env.get('pid', 4242)    # numbers come back
                if rng.random() < .5:
                    e['bufsize'] = rng.choice([16, 64])
                s.append([p[0], e])
            series.append(s)
    key = []
    for attempts in series:
        state = pre
        left = False
        fired = []
        try:
            for plan, e in attempts:
                res, state = ctx.run(state, call, e, plan)
                if res.how in ('hang', 'runaway') or \
                        res.ops > bound(ref) * (
                            1 if not e.get('bufsize') else 50):
                    raise Violation('no-end', f'{what}: {res.ops} operations, '
                                    f'{res.how}, clean run {ref.ops}; {plan}')
                fired += [f'{f[0]}:{f[2]} {f[3]}' for f in res.fired]
                if state != pre:
                    left = True
            res, state1 = ctx.run(state, call, dict(
                env, rng=env.get('rng', 0) + 1))
            if not ok(res):
                raise Violation('not-repaired', f'{what}: clean run after '
                                f'{fired}: {engine.brief(res)}')
            a, b = files(want), files(state1)
            b = {p: x for p, x in b.items() if p in a or p in pre}
            if a != b:
                raise Violation('differs-after-repair', f'{what}: after '
                                f'{fired}: {engine.diff_states(a, b)}')
            res2, state2 = ctx.run(state1, call, dict(
                env, rng=env.get('rng', 0) + 2))
            if not ok(res2):
                raise Violation('rerun-failed', f'{what}: '
                                f'{engine.brief(res2)}')
            if files(state2) != files(state1):
                raise Violation('rerun-changes', f'{what}: '
                                f'{engine.diff_states(state1, state2)}')
            if call['args'].get('check') and call['via'] != 'api' and \
                    res2.results[0]['code'] == 2:
                raise Violation('rerun-changes', f'{what}: --check reports '
                                'changes of a repeated run')
        except Violation as v:
            v.fix = dict({k: x for k, x in sc.items()
                          if k not in ('n', 'fseed')}, attempts=attempts)
            raise
        if fired:
            key.append((fired, left))
    return repr((call['args'], key, engine.state_hash(want))) if key else None
