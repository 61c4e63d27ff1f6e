"""C04: concurrent and nested API calls in one process are isolated."""

import engine
import history as hi
import project as pj
from engine import Invalid, Violation, printed
from props.c14 import EVENTS

ID = 'C04'
RULE = ('2-3 API calls of the four tools with different options and outputs '
        'on shared sources, PO files, option objects and event modules run '
        'in threads of one process; a seeded scheduler switches threads at '
        'chosen executed lines of mdpo, polib and event modules; or a call '
        'is made from inside an event callback of another, up to two levels '
        'deep; results, printed text, events and files must be those of each '
        'call alone; some calls fail by I/O errors, raising callbacks or bad '
        'arguments; non-trivial when a preemption or nested call happened; '
        'distinct by calls, switch points and contents')
COUNTS = {'quick': 2600, 'thorough': 40000}
MOD = ('import simtrace\n\nPREFIX = "{p}"\nSEEN = []\n\n\n'
       'class Shout:\n    def text(self, block, text):\n'
       '        simtrace.T.append(PREFIX + "text " + text)\n\n\n'
       'def msgid(self, msgid, *args):\n'
       '    simtrace.T.append(PREFIX + "msgid " + msgid)\n\n\n'
       'def fail(self, *args):\n    raise ValueError("module fails")\n\n\n'
       'def command(self, *args):\n'
       '    simtrace.T.append(PREFIX + "command " + str(args[0]))\n')
EXTENSIONS = [['tables', 'strikethrough'], ['tables', 'latex_math_spans'],
              ['collapse_whitespace', 'tables', 'wikilinks']]


# -- generation ---------------------------------------------------------------

def one(rng, g, i, pos, both):
    """A call whose outputs nobody else uses."""
    r = rng.random()
    p = rng.choice(g.paths)
    po = f'locale/t{i}.po'
    if r < .4:
        src = None
        if rng.random() < .3:
            src = p
        c = g.md2po(po=po, src=src, via='api',
                    mode=rng.choice(['mark', 'mark', 'merge', 'remove']))
        a = c['args']
        if 'mo' in a:
            a['mo'] = f'locale/t{i}.mo'
        if rng.random() < .2:
            a.pop('save')
            a.pop('mo', None)
            a.pop('check', None)
            if rng.random() < .5:
                a.pop('po')
        if rng.random() < .2:
            a['plaintext'] = True
        if rng.random() < .15:
            a['src'] = ('text of thread %d\n\n<!-- mdpo-context c%d -->\n\n'
                        '- item `x` *y*\n\n[l%d]: /u%d\n') % (i, i, i, i)
    elif r < .7:
        c = g.po2md(p, [rng.choice(pos)], rng.choice(
            [None, f'out/t{i}.md', f'out/t{i}.md']), via='api')
    elif r < .82:
        c = g.html('docs/in.html', [rng.choice(pos)],
                   rng.choice([None, f'out/t{i}.html']), via='api')
    else:
        c = g.md2po2md(via='api')
        a = c['args']
        a['schema'] = f'out/t{i}/' + '{lang}'
        if both:
            a['langs'] = a['langs'][:2]
    a = c['args']
    for k in ('save', 'check'):
        if k == 'check' and c['tool'] in ('po2md', 'mdpo2html') and \
                not a.get('save'):
            a.pop(k, None)
    a.pop('quiet', None)
    if c['tool'] != 'mdpo2html':
        if rng.random() < .25:
            a['extensions'] = rng.choice(EXTENSIONS)
        if rng.random() < .2:
            a.pop('aliases', None)
    if rng.random() < .2:
        a['kw'] = pj.extra_kwargs(rng, c['tool'])
    if c['tool'] == 'md2po2md':
        return c
    if rng.random() < .15 and c['tool'] in ('md2po', 'po2md'):
        a['debug'] = True
    return c


def events(rng, c):
    a = c['args']
    if c['tool'] not in ('md2po', 'po2md'):
        return
    r = rng.random()
    if r < .35:
        c['event_module'] = True
        a['events'] = rng.choice([
            {'msgid': ['ev.py::msgid']},
            {'msgid': ['lib/ev.py::msgid'], 'text': ['ev.py::Shout.text']},
            {'text': ['ev.py::Shout.text']},
            {'command': ['ev.py::command'], 'msgid': ['ev.py::msgid']},
            {'text': ['lib/ev.py::Shout.text'],
             'command': ['lib/ev.py::command']},
            {'msgid': ['ev.py::msgid'], 'text': ['ev.py::fail']},
            {'command': ['ev.py::fail']},
        ])
    elif r < .6:
        a['events'] = {e: ['observe'] for e in EVENTS}
    elif r < .7:
        e = rng.choice(EVENTS)
        a['events'] = {e: [rng.choice([
            {'kind': 'raise', 'nth': rng.randrange(4),
             'exc': rng.choice(['exc', 'value', 'key', 'stop', 'base',
                                'interrupt'])},
            {'kind': 'skip', 'at': [0, 2, 5]}])]}
        if e == 'msgid':
            a['events'] = {e: ['observe']}


def gen(rng, tier):
    g = pj.ProjGen(rng, dangling=rng.random() < .1, wild=rng.random() < .4)
    world = g.world()
    world['ev.py'] = {'text': MOD.replace('{p}', 'a:')}
    world['lib/ev.py'] = {'text': MOD.replace('{p}', 'b:')}
    steps = [{'op': 'write', 'path': 'docs/in.html',
              'file': g.published(g.docs[g.paths[0]])}]
    pos = ['locale/es.po']
    steps.append({'op': 'run', 'env': {}, 'call': g.md2po(
        po='locale/es.po', mode='mark', src=list(g.paths))})
    steps.append(g.translation('locale/es.po', .9))
    nest = rng.random() < .35
    n = 1 if nest and rng.random() < .8 else rng.choice([2, 2, 2, 3])
    same = rng.random() < .15
    calls = [one(rng, g, i, pos, n == 3) for i in range(n)]
    for i, c in enumerate(calls):
        if c['tool'] == 'md2po' and 'po' in c['args'] and rng.random() < .6:
            d = g.md2po(po=f'locale/t{i}.po', mode='mark',
                        src=list(g.paths))
            d['args'].pop('mo', None)
            steps.append({'op': 'run', 'env': {}, 'call': d})
            steps.append(g.translation(f'locale/t{i}.po', .9))
    for _ in range(rng.choice([0, 1, 1, 2])):
        steps.append(g.edit())
    for c in calls:
        events(rng, c)
    if nest:
        c = calls[0]
        while c['tool'] not in ('md2po', 'po2md'):
            c = calls[0] = one(rng, g, 0, pos, False)
        c['args'].pop('events', None)
        c.pop('event_module', None)
        inner = one(rng, g, 7, pos, True)
        events(rng, inner)
        if rng.random() < .25 and inner['tool'] in ('md2po', 'po2md'):
            inner2 = one(rng, g, 8, pos, True)
            nest_in(rng, inner, inner2)
        nest_in(rng, c, inner)
    elif same and len(calls) > 1:
        # the same settled call in each thread
        c = calls[0]
        if c['tool'] != 'md2po2md':
            c['args'].pop('events', None)
            c.pop('event_module', None)
            if c['tool'] == 'md2po' and 'po' in c['args']:
                c['args']['src'] = list(g.paths)
                c['args'].pop('mo', None)
        if c['args'].get('save') or c['tool'] == 'md2po2md':
            steps.append({'op': 'run', 'env': {}, 'call': c})
        calls = [c] * n
    share(rng, calls)
    plan = []
    if not same and rng.random() < .15:
        i = rng.randrange(len(calls))
        path = f'locale/t{i}.po'
        plan = [{'cls': rng.choice(['open_r', 'read']), 'path': path,
                 'nth': 0, 'effect': rng.choice(['eio', 'nomem',
                                                 'interrupt'])}]
    return {'world': world, 'steps': steps, 'calls': calls, 'plan': plan,
            'scheds': [{'sseed': rng.randrange(1 << 30)}
                       for _ in range(1 if n == 1 else 3)]}


def nest_in(rng, c, inner):
    ev = rng.choice(['text', 'msgid', 'enter_block', 'leave_block', 'command',
                     'enter_span', 'leave_span', 'link_reference', 'text',
                     'msgid', 'leave_block'])
    k = {'kind': 'nest', 'nth': rng.choice([0, 0, 1, 2, 3, 5]),
         'call': inner}
    evs = {e: ['observe'] for e in EVENTS}
    evs[ev] = rng.choice([['observe', k], [k], [k, 'observe']])
    c['args']['events'] = evs


def share(rng, calls):
    if rng.random() > .5:
        return
    meta = {'X-Shared': 'yes'}
    for c in calls:
        a = c['args']
        c['share'] = {}
        if 'aliases' in a:
            c['share']['aliases'] = 'aliases'
        if 'extensions' in a:
            c['share']['extensions'] = ':'.join(a['extensions'])
        if c['tool'] == 'md2po':
            if 'metadata' not in a:
                a['metadata'] = dict(meta)
                c['share']['metadata'] = 'meta'
            a['ignore'] = ['never.md']
            c['share']['ignore'] = 'ignore'
            a['ignore_msgids'] = ['nothing', 'like this']
            c['share']['ignore_msgids'] = 'ids'


def preemptions(rng, locs, n):
    """Switch points, most where little happens often."""
    per = {}
    for t, f, l, c in locs:
        per.setdefault(t, []).append((f, l, c))
    out = []
    total = {t: sum(c for _, _, c in v) for t, v in per.items()}
    style = rng.choice(['rare', 'rare', 'any', 'file', 'paired'])
    files = sorted({f for v in per.values() for f, _, _ in v})
    focus = rng.choice(files)
    for t in sorted(per):
        for _ in range(rng.choice([1, 2, 3, 4, 8])):
            cand = per[t]
            if style == 'rare':
                cand = [x for x in cand if x[2] <= 3] or cand
            elif style == 'file':
                cand = [x for x in cand if x[0] == focus] or cand
            if style == 'any' and rng.random() < .5:
                # by occurrence
                k = rng.randrange(total[t])
                for f, l, c in cand:
                    if k < c:
                        break
                    k -= c
                nth = k
            else:
                f, l, c = rng.choice(cand)
                nth = rng.randrange(c)
            out.append({'thread': t, 'loc': [f, l], 'nth': nth,
                        'to': rng.randrange(n)})
            if style == 'paired':
                # the other threads stop at the same place
                for u in per:
                    if u != t and rng.random() < .7:
                        out.append({'thread': u, 'loc': [f, l], 'nth': nth,
                                    'to': rng.randrange(n)})
    return out


# -- oracle -------------------------------------------------------------------

FIELDS = ('how', 'code', 'exc', 'value')


def plain(c):
    """The call without the nested ones."""
    ev = c['args'].get('events')
    if not ev:
        return c, None
    inner = None
    new = {}
    for e, items in ev.items():
        new[e] = []
        for x in items:
            if isinstance(x, dict) and x.get('kind') == 'nest':
                inner = x['call']
                x = 'observe'
            new[e].append(x)
    return dict(c, args=dict(c['args'], events=new)), inner


def same(got, want, call, what):
    for f in FIELDS:
        if got[f] != want[f]:
            raise Violation('result', f'{what}: {f}: alone '
                            f'{str(want[f])[-200:]!r}, here '
                            f'{str(got[f])[-200:]!r}')
    a, b = printed(want, call), printed(got, call)
    if a != b:
        raise Violation('output', f'{what}: printed alone {a[-200:]!r}, '
                        f'here {b[-200:]!r}')
    t = [x for x in got['trace'] if not isinstance(x, list)]
    if t != want['trace']:
        i = next((i for i, (x, y) in enumerate(zip(t, want['trace']))
                  if x != y), min(len(t), len(want['trace'])))
        raise Violation('events', f'{what}: callback {i}: alone '
                        f'{want["trace"][i:i + 1]}, here {t[i:i + 1]}')


class Alone:
    def __init__(self, ctx, pre, plan):
        self.ctx, self.pre, self.plan = ctx, pre, plan
        self.post = dict(pre)
        self.n = 0
        self.owner = {}

    def __call__(self, call):
        self.n += 1
        c = {k: v for k, v in call.items() if k != 'share'}
        res, post = self.ctx.run(self.pre, c, {'rng': 500 + self.n},
                                 self.plan)
        for p in set(post) | set(self.pre):
            if post.get(p, 0) != self.pre.get(p, 0):
                if p in self.owner and self.owner[p] != post.get(p, 0) and \
                        post.get(p, 0) is not None:
                    raise Invalid('two calls write the same file')
                self.owner[p] = post.get(p, 0)
                if p in post:
                    self.post[p] = post[p]
                else:
                    self.post.pop(p, None)
        return res.results[0]


def nested_of(trace):
    return [x[1] for x in trace if isinstance(x, list)]


def check(alone, memo, call, got, what):
    """A result of a call, and of those nested in it, against alone."""
    base, inner = plain(call)
    key = repr(base)
    if key not in memo:
        memo[key] = alone(base)
    same(got, memo[key], base, what)
    n = 0
    for r in nested_of(got['trace']):
        n += 1
        n += check(alone, memo, inner, r,
                   f'{inner["tool"]} inside {what}')
    return n


def warm(memo, alone, call):
    base, inner = plain(call)
    key = repr(base)
    if key not in memo:
        memo[key] = alone(base)


def execute(ctx, sc):
    h = hi.Hist(ctx, sc)
    for step in sc['steps']:
        if step['op'] != 'run':
            h.human(step)
            continue
        if step['call']['tool'] == 'md2po':
            h.sources(step['call'], False)
        _, res, _ = h.run(step)
        engine.expect_ok(res, step['call'], 'earlier run')
    pre = dict(h.state)
    for c in sc['calls']:
        if c['tool'] == 'md2po2md' or isinstance(c['args']['src'], list):
            h.sources(c, False)
    calls, plan = sc['calls'], sc.get('plan') or []
    n = len(calls)
    # directories are made by whoever comes first
    for c in list(calls) + [plain(c)[1] for c in calls]:
        while c is not None:
            a = c['args']
            if c['tool'] == 'md2po2md':
                for p in h.sources(c, False):
                    for _, po, md in pj.md2po2md_files(a, p):
                        pj.add_dirs(pre, po)
                        pj.add_dirs(pre, md)
            for k in ('po', 'mo', 'save'):
                if isinstance(a.get(k), str):
                    pj.add_dirs(pre, a[k])
            c = plain(c)[1]
    alone = Alone(ctx, pre, plan)
    memo = {}
    for c in calls:
        warm(memo, alone, c)
    locs = None
    keys = []
    hit = False
    for s in sc['scheds']:
        if 'preempt' in s:
            first, pre_ = s.get('first', 0), s['preempt']
        else:
            rng = pj.seeded(s['sseed'])
            first = rng.randrange(n)
            pre_ = []
            if n > 1:
                if locs is None:
                    r0, _ = ctx.run(pre, {'kind': 'threads', 'calls': calls,
                                          'record': True}, {'rng': 1}, plan)
                    locs = r0.sched['locs'] if r0.sched else []
                if locs:
                    pre_ = preemptions(rng, locs, n)
        try:
            k = one_run(ctx, sc, calls, plan, pre, alone, memo, first, pre_)
        except Violation as v:
            v.fix = dict(sc, scheds=[{'first': first, 'preempt': pre_}])
            raise
        keys.append(k)
        hit = hit or k[0]
    return repr((keys, [c['args'] for c in calls])) if hit else None


def one_run(ctx, sc, calls, plan, pre, alone, memo, first, preempt):
    n = len(calls)
    if n == 1:
        prog = {'kind': 'call', 'call': calls[0]}
    else:
        prog = {'kind': 'threads', 'calls': calls, 'first': first,
                'preempt': preempt}
    res, post = ctx.run(pre, prog, {'rng': 1}, plan)
    tools_ = ' | '.join(c['tool'] for c in calls)
    if res.how in ('hang', 'runaway'):
        raise Violation('no-end', f'{tools_}: {res.how}')
    switches = 0
    trace = []
    if res.sched:
        trace = res.sched['trace']
        switches = sum(t.startswith('preempt') for t in trace)
        ctx.stats['preempt'] += switches
        if 'deadlock' in trace:
            raise Violation('deadlock', f'{tools_}: {trace[-3:]}')
    nested = 0
    for i, (c, r) in enumerate(zip(calls, res.results)):
        nested += check(alone, memo, c, r,
                        f'{c["tool"]} {i} of {tools_}')
    for x in res.results[0].get('residue', ()):
        raise Violation('shared-argument', x)
    want = dict(alone.post)
    ran = all_nested(calls, res.results)
    if not ran:
        want = post              # a nested call did not happen
    for p in sorted(set(want) | set(post)):
        if want.get(p, 0) != post.get(p, 0):
            raise Violation('files', f'{tools_} ({switches} switches, '
                            f'{nested} nested): {p}: alone '
                            f'{engine.show(want.get(p, 0))}, here '
                            f'{engine.show(post.get(p, 0))}')
    if nested:
        ctx.note('nested calls', nested)
    return (bool(switches or nested), tuple(trace[:20]),
            engine.state_hash(post))


def all_nested(calls, results):
    for c, r in zip(calls, results):
        base, inner = plain(c)
        got = nested_of(r['trace'])
        if inner is not None and got and not all_nested([inner], got[:1]):
            return False
    return True
