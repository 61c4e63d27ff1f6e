"""C01: output files are replaced all-or-nothing whatever stops a run."""

import command
import engine
import project as pj
import seam
from engine import Violation, expect_ok, ok

ID = 'C01'
RULE = ('a command (md2po, po2md, md2po2md, mdpo2html; any options) on a '
        'project with a past is run once without faults and then many times '
        'from the same state with one or two faults (I/O error, full disk, '
        'interrupt at an operation or a source line, failed allocation, '
        'kill, torn write, power cut) placed at operations of that run; '
        'every file must hold its old or its complete new content; '
        'non-trivial when a fault fired and the command writes a file; '
        'distinct by command, fault places and resulting contents')
COUNTS = {'quick': 2000, 'thorough': 30000}
PER = 12


def gen(rng, tier):
    sc = command.gen(rng, events=True)
    if rng.random() < .06:
        unencodable(rng, sc)
    sc['env'] = pj.random_env(rng)
    if rng.random() < .6:
        sc['env']['bufsize'] = rng.choice([16, 64, 256])
    sc['fseed'] = rng.randrange(1 << 30)
    sc['n'] = PER
    return sc


def unencodable(rng, sc):
    """Make the output impossible to encode."""
    c = sc['call']
    if c['tool'] == 'md2po':
        c['args']['po_encoding'] = rng.choice(['ascii', 'iso-8859-1'])
    elif c['tool'] == 'po2md':
        c['args']['md_encoding'] = rng.choice(['ascii', 'iso-8859-1'])


def judge(pre, ref, res, post, plan, what, refok=True):
    """Compare the files after a faulty run with before and reference."""
    fired = [f'{f[0]}:{f[2]} {f[3]}' for f in res.fired]
    for p in sorted(set(pre) | set(ref) | set(post)):
        if p.endswith('/'):
            if p in pre and p not in post:
                raise Violation('lost-directory', f'{what}: {p} {fired}')
            continue
        now = post.get(p)
        if p in pre or p in ref:
            if now in (pre.get(p), ref.get(p)):
                continue
            if now is not None and not refok and \
                    (now == pre.get(p)):
                continue
            raise Violation(
                'broken-file', f'{what}: {p} holds {engine.show(post.get(p, 0))}'
                f', neither the old {engine.show(pre.get(p, 0))} nor the new '
                f'{engine.show(ref.get(p, 0))}; faults {fired} -> {res.how}')
    failed = res.how == 'exc' or res.how == 'exit' or res.how == 'ok'
    if failed and not any(f[0] in ('line', 'unlink') for f in res.fired):
        extra = command.strays(set(pre) | set(ref), post)
        if extra:
            raise Violation('leftover', f'{what}: {extra[0]} after {fired} '
                            f'-> {engine.brief(res)}')


def execute(ctx, sc):
    h = command.past(ctx, sc)
    call, env, pre = sc['call'], sc['env'], h.state
    ref, rpost = ctx.run(pre, call, env)
    what = f'{call["tool"]} ({call["via"]})'
    bad_enc = call['args'].get('po_encoding') == 'ascii' or \
        call['args'].get('md_encoding') == 'ascii' or not ok(ref)
    if not ok(ref):
        if ref.how == 'exc' and ref.results[0]['exc'][0] in (
                'UnicodeEncodeError', 'UnicodeDecodeError', 'LookupError') \
                and bad_enc:
            rest = {p: b for p, b in rpost.items() if not p.endswith('/')}
            old = {p: b for p, b in pre.items() if not p.endswith('/')}
            if call['tool'] != 'md2po2md' and rest != old:
                raise Violation('broken-file', f'{what} failed: '
                                + engine.diff_states(old, rest))
            ctx.note('encoding-errors')
            return repr((call['args'], engine.state_hash(pre)))
        expect_ok(ref, call)
    if 'plans' in sc:
        todo = [(p, e) for p, e in sc['plans']]
    else:
        rng = pj.seeded('c01', sc['fseed'])
        traced = None
        if rng.random() < .35:
            traced, _ = ctx.run(pre, call, env, command.TRACE)
        todo = [(p, dict(env, power_seed=rng.randrange(1 << 20)))
                for p in command.plans(rng, ref.log, sc['n'], 'all', traced)]
    key = []
    for plan, e in todo:
        res, post = ctx.run(pre, call, e, plan)
        try:
            if res.how in ('hang', 'runaway'):
                raise Violation('no-end', f'{what}: {plan}')
            judge(pre, rpost, res, post, plan, what)
        except Violation as v:
            v.fix = dict({k: x for k, x in sc.items()
                          if k not in ('n', 'fseed')}, plans=[[plan, e]])
            raise
        if res.fired:
            key.append((res.fired[0][:3], res.how,
                        engine.state_hash(post)))
    if not key or rpost == pre:
        return None
    return repr((call['args'], key))
