"""C08: md2po2md equals md2po then po2md for every file and language."""

import engine
import history as hi
import project as pj
from engine import Invalid, Violation, expect_ok, ok
from props.c12 import real

ID = 'C08'
RULE = ('a project of 1-3 documents and 1-3 languages goes through 1-4 '
        'md2po2md runs with author and translator steps, removed and foreign '
        'files and faults in between; the PO and Markdown file of each '
        'source and language must be those that separate md2po and po2md '
        'runs, each from the same previous state, leave, and no other file '
        'may change; after a fault each file must be the previous or that '
        'one; non-trivial when a file held translations or a fault fired; '
        'distinct by calls, outcomes and contents')
COUNTS = {'quick': 2000, 'thorough': 30000}
EXTENSIONS = [['tables'], ['tables', 'strikethrough'],
              ['collapse_whitespace', 'tables', 'wikilinks'],
              ['tables', 'latex_math_spans', 'tasklists'],
              ['tables', 'permissive_autolinks', 'strikethrough']]


def gen(rng, tier):
    g = pj.ProjGen(rng, dangling=rng.random() < .15, wild=rng.random() < .3)
    fault = rng.choice([0, 0, .35])
    sc = hi.gen_multi(rng, g, rng.choice([1, 2, 2, 3, 4]), fault)
    ext = rng.choice(EXTENSIONS) if rng.random() < .15 else None
    steps = []
    for s in sc['steps']:
        if s['op'] == 'run':
            a = s['call']['args']
            a.pop('debug', None)
            rng.shuffle(a['langs'])
            if ext:
                a['extensions'] = ext
            if s['call']['via'] == 'api' and rng.random() < .2:
                a['mode'] = rng.choice(['merge', 'remove'])
            pos = [x for p in g.paths for _, *y in
                   pj.md2po2md_files(a, p) for x in y]
            if rng.random() < .15:
                steps.append({'op': 'delete', 'path': rng.choice(pos)})
            if rng.random() < .1:
                steps.append({'op': 'write', 'path': rng.choice(
                    [x for x in pos if x.endswith('.md')] or pos),
                    'file': {'text': 'old text\n', 'enc': g.enc}})
            s['sub'] = [[rng.choice(['api', 'cli', 'run']),
                         rng.choice(['api', 'cli', 'run'])]
                        for _ in range(2)]
            s['env2'] = pj.random_env(rng)
        steps.append(s)
    sc['steps'] = steps
    return sc


def composed(ctx, h, pre, step):
    """What separate runs leave: {path: bytes}."""
    a = step['call']['args']
    want = {}
    subs = step.get('sub') or [['api', 'api']]
    n = 0
    for src in h.sources(step['call'], False):
        for _, po, md in pj.md2po2md_files(a, src):
            c1, c2 = hi.separate(a, src, po, md, *subs[n % len(subs)])
            n += 1
            st = dict(pre)
            pj.add_dirs(st, po)
            pj.add_dirs(st, md)
            env = dict(step.get('env2') or {}, rng=n)
            r1, st = ctx.run(st, c1, env)
            expect_ok(r1, c1, 'separate run')
            r2, st = ctx.run(st, c2, env)
            expect_ok(r2, c2, 'separate run')
            for p in (po, md):
                q = real(p, st)
                if q in want and want[q] != st[q]:
                    raise Invalid('two sources, one output')
                want[q] = st[q]
    return want


def execute(ctx, sc):
    h = hi.Hist(ctx, sc)
    hit = False
    for step in sc['steps']:
        if step['op'] != 'run':
            h.human(step)
            continue
        call = step['call']
        h.sources(call, False)
        want = composed(ctx, h, h.state, step)
        pre, res, post = h.run(step)
        what = f'md2po2md ({call["via"]}) {call["args"]["langs"]}'
        fired = [f'{f[0]}:{f[2]} {f[3]}' for f in res.fired]
        if not fired:
            expect_ok(res, call)
        done = ok(res) and not fired
        for p, b in want.items():
            if post.get(p, 0) == b:
                continue
            if not done and post.get(p, 0) == pre.get(p, 0):
                continue
            raise Violation('differs' if done else 'part-way', f'{what} '
                            f'{fired}: {p}: separate runs leave '
                            f'{engine.show(b)}, it {engine.show(post.get(p, 0))}')
        for p in set(pre) | set(post):
            if p in want or p.endswith('/') or pre.get(p, 0) == post.get(p, 0):
                continue
            if fired and p not in pre and not ok(res):
                continue               # left behind; C01 and C06 judge that
            raise Violation('other-file', f'{what} {fired}: {p}: '
                            f'{engine.show(pre.get(p, 0))} -> '
                            f'{engine.show(post.get(p, 0))}')
        if fired or any(b'\nmsgstr "T' in b for b in want.values()):
            hit = True
    return repr(h.key) if hit else None
