"""C03: concurrent runs on shared files never corrupt or mix them."""

import itertools

import engine
import history as hi
import project as pj
import seam
from engine import Invalid, Violation, ok

ID = 'C03'
RULE = ('a project of 1-3 documents with PO files and earlier outputs; 2-3 '
        'processes (md2po, po2md, mdpo2html, md2po2md) run at the same time '
        'under a seeded schedule that switches between them at I/O '
        'operations, sometimes one of them is killed or gets an I/O error; '
        'each output must be what some run produces from complete versions '
        'of its inputs, runs without faults succeed, translations stay; '
        'non-trivial when the processes were interleaved and share a file '
        'that one of them writes; distinct by schedules and contents')
COUNTS = {'quick': 2500, 'thorough': 40000}
LIMIT = 60          # runs of the oracle
WCLS = ('open_w', 'write', 'rename', 'close', 'fsync', 'unlink', 'mkdir')


# -- generation ---------------------------------------------------------------

def gen(rng, tier):
    g = pj.ProjGen(rng, wild=rng.random() < .25)
    world = g.world()
    po = 'locale/es.po'
    steps = []
    kind = rng.choices(['pair', 'multi', 'twice', 'chain', 'drop'],
                       [5, 4, 2, 2, 2])[0]
    if kind == 'drop' and len(g.paths) < 2:
        kind = 'pair'
    n = rng.choice([2, 2, 2, 3])
    calls = []
    if kind in ('multi', 'twice') and rng.random() < (
            .8 if kind == 'multi' else .5):
        base = g.md2po2md()
        a = base['args']
        a['langs'] = a['langs'][:2]
        if kind == 'multi' and len(g.paths) > 2:
            a['src'] = rng.choice(g.paths)
        files = [x for p in g.paths for x in pj.md2po2md_files(a, p)]
        if rng.random() < .75:
            steps.append({'op': 'run', 'call': base, 'env': {}})
            steps.append(g.translation(rng.choice(files)[1], .9))
            for _ in range(rng.choice([0, 1, 1, 2])):
                steps.append(g.edit())
        calls.append(base)
        while len(calls) < n:
            _, p, md = rng.choice(files)
            src = rng.choice(pj.sources_of(
                a['src'], {p: b'' for p in g.paths}))
            r = rng.random()
            if kind == 'twice' or r < .35:
                c = g.md2po2md()
                for k in ('schema', 'src', 'langs'):
                    c['args'][k] = a[k]
            elif r < .7:
                c = g.md2po(po=p, src=src, mode=rng.choice(
                    ['mark', 'mark', 'merge']))
            else:
                c = g.po2md(src, [p], rng.choice([md, 'out/other.md']))
            calls.append(c)
    else:
        first = g.md2po(po=po, mode='mark')
        if rng.random() < .85:
            steps.append({'op': 'run', 'call': first, 'env': {}})
            steps.append(g.translation(po, .9))
            for _ in range(rng.choice([0, 1, 1, 2])):
                steps.append(g.edit())
        if kind == 'drop':
            # translations of some documents go while they are translated
            p = rng.choice(g.paths)
            for _ in range(30):
                if any(b.get('name') == 'context'
                       for b in g.docs[p]['blocks']):
                    break
                g.docs[p] = g.newdoc()
            world.update(g.world())
            if not steps:
                steps = [{'op': 'run', 'call': first, 'env': {}},
                         g.translation(po, .9)]
            calls = [
                g.po2md(p, [po], rng.choice(['out/doc.md', None])),
                g.md2po(po=po, src=[x for x in g.paths if x != p],
                        mode=rng.choice(['remove', 'remove', 'mark']))]
            n = rng.choice([2, 2, 3])
        if kind == 'chain':
            out = 'out/doc.md'
            src = rng.choice(g.paths)
            steps.append({'op': 'write', 'path': out, 'file': {
                'text': f'{g.words(3)}\n\n{g.words(4)}\n', 'enc': g.enc}})
            calls = [g.po2md(src, [po], out), g.md2po(
                po='locale/out.po', src=rng.choice([out, [out, src]]),
                mode='mark')]
            if n == 3:
                calls.append(g.md2po(po=po, mode='mark'))
        elif kind == 'twice':
            c = first if rng.random() < .5 else g.po2md(
                rng.choice(g.paths), [po], 'out/doc.md')
            calls = [c] * n
        while len(calls) < n:
            r = rng.random()
            if r < .5 or not calls:
                src = None
                if len(g.paths) > 1 and rng.random() < .5:
                    src = rng.sample(g.paths, len(g.paths) - 1)
                calls.append(g.md2po(po=po, src=src, mode=rng.choice(
                    ['mark', 'mark', 'merge', 'remove'])))
            elif r < .85:
                calls.append(g.po2md(
                    rng.choice(g.paths), [rng.choice([po, po,
                                                      'locale/*.po'])],
                    rng.choice(['out/doc.md', 'out/doc.md', 'out/2.md',
                                None])))
            else:
                src = 'docs/in.html'
                steps.append({'op': 'write', 'path': src, 'file':
                              g.published(g.docs[g.paths[0]])})
                calls.append(g.html(src, [po], rng.choice(
                    ['out/doc.html', None])))
    for c in calls:
        if c['args'].get('save') in (None, False) and \
                c['tool'] in ('po2md', 'mdpo2html'):
            c['args'].pop('check', None)
            c['args'].pop('quiet', None)
        if c['tool'] == 'md2po' and rng.random() < .3:
            c['args']['mo'] = 'locale/all.mo'
    rng.shuffle(calls)
    sc = {'world': world, 'steps': steps, 'calls': calls, 'scheds': []}
    for _ in range(2):
        envs = []
        for i in range(len(calls)):
            e = {'rng': rng.randrange(1 << 30), 'pid': 1000 * (i + 1) +
                 rng.randrange(900)}
            if rng.random() < .2:
                e['wchunk'] = rng.choice([100, 500])
            if rng.random() < .2:
                e['chunk'] = rng.choice([64, 300])
            if rng.random() < .2:
                e['dirorder'] = rng.choice(['rev', 1, 2])
            envs.append(e)
        sc['scheds'].append({'envs': envs, 'sseed': rng.randrange(1 << 30)})
    return sc


def concrete(rng, logs, n):
    """Interleaving and faults from the operations each run does alone."""
    ops = [[x.split(' ')[1:3] for x in log if x.split(' ')[0].isdigit()]
           for log in logs]
    at = [0] * n
    step = 0
    schedule = []
    style = rng.choice(['write', 'write', 'random', 'fine', 'late', 'po'])
    cur = rng.randrange(n)
    schedule.append([0, cur])
    while True:
        left = [i for i in range(n) if at[i] < len(ops[i])]
        if len(left) < 2 or len(schedule) > 40:
            break
        if cur not in left:
            cur = rng.choice(left)
            schedule.append([step, left.index(cur)])
        rest = ops[cur][at[cur]:]
        if style == 'fine':
            k = rng.choice([1, 1, 2, 3])
        elif style == 'random':
            k = rng.randrange(1, len(rest) + 1)
        else:
            marks = [i for i, o in enumerate(rest) if o[0] in WCLS]
            if style == 'late':
                marks = marks[len(marks) // 2:]
            if style == 'po':
                # after reading PO files, and after replacing them
                marks = [i for i, o in enumerate(rest)
                         if o[0] == 'rename' or (
                             o[0] in ('open_r', 'close')
                             and o[1].endswith('.po'))] or marks
            k = rng.choice(marks) + rng.choice([0, 0, 1]) if marks \
                else len(rest)
            if rng.random() < .2:
                k = rng.randrange(1, len(rest) + 1)
        k = max(1, min(k, len(rest)))
        at[cur] += k
        step += k
        left = [i for i in range(n) if at[i] < len(ops[i])]
        other = [i for i in left if i != cur]
        if other:
            cur = rng.choice(other)
            schedule.append([step, left.index(cur)])
    plans = [[] for _ in range(n)]
    r = rng.random()
    if r < .4:
        i = rng.randrange(n)
        f = pj.pick_fault(rng, logs[i], 'kills' if r < .3 else 'errors')
        if f and 'power' not in f['effect']:
            plans[i] = [f]
    return schedule, plans


# -- oracle -------------------------------------------------------------------

def parts(h, i, call):
    """The single steps of a run: (run, call, inputs that vary, outputs)."""
    a = call['args']
    if call['tool'] == 'md2po2md':
        out = []
        for src in h.sources(call, False):
            for _, po, md in pj.md2po2md_files(a, src):
                c1, c2 = hi.separate(a, src, po, md)
                out.append((i, c1, [src, po], [po]))
                out.append((i, c2, [src, po], [md]))
        return out
    if call['tool'] == 'md2po':
        outs = [a['po']] + ([a['mo']] if a.get('mo') else [])
        c = {'tool': 'md2po', 'via': 'api', 'args': {
            k: v for k, v in a.items() if k not in ('check', 'quiet')}}
        return [(i, c, h.sources(call, False) + [a['po']], outs)]
    ins = [a['src']] + [p for x in a['pofiles'] for p in
                        (['locale/es.po'] if '*' in x else [x])]
    outs = [a['save']] if a.get('save') else []
    c = {'tool': call['tool'], 'via': 'api', 'args': {
        k: v for k, v in a.items() if k not in ('check', 'quiet')}}
    return [(i, c, ins, outs)]


class Closure:
    """All versions of the files that whole-file runs can produce."""

    def __init__(self, ctx, h, calls):
        self.ctx = ctx
        self.base = h.state
        self.parts = [p for i, c in enumerate(calls) for p in parts(h, i, c)]
        self.done = set()
        self.n = 0
        # path -> {bytes or 0: [sets of parts used]}
        self.vers = {}
        for _, _, ins, outs in self.parts:
            for p in ins + outs:
                self.vers.setdefault(p, {h.state.get(p, 0): [frozenset()]})
        self.by = {}        # path -> {bytes: runs that write it}
        while self.grow():
            pass

    def grow(self):
        more = False
        for k, (i, call, ins, outs) in enumerate(self.parts):
            lists = [list(self.vers[p].items()) for p in ins]
            for combo in itertools.product(*lists):
                for provs in itertools.product(*[c[1] for c in combo]):
                    used = frozenset().union(*provs)
                    if k in used:
                        continue
                    key = (k, tuple(c[0] for c in combo), used)
                    if key in self.done:
                        continue
                    self.done.add(key)
                    self.derive(k, i, call, ins, outs,
                                [c[0] for c in combo], used | {k})
                    more = True
        return more

    def derive(self, k, i, call, ins, outs, contents, used):
        st = dict(self.base)
        for p, b in zip(ins, contents):
            if b == 0:
                st.pop(p, None)
            else:
                st[p] = b
                pj.add_dirs(st, p)
        for p in outs:
            pj.add_dirs(st, p)
        self.n += 1
        if self.n > LIMIT:
            raise Invalid('too many versions')
        res, post = self.ctx.run(st, call, {'rng': self.n})
        if not ok(res):
            raise Invalid(f'{call["tool"]} alone: {engine.brief(res)}')
        for p in outs:
            b = post.get(p, 0)
            sets = self.vers[p].setdefault(b, [])
            if not any(s <= used for s in sets):
                sets[:] = [s for s in sets if not used <= s] + [used]
            self.by.setdefault(p, {}).setdefault(b, set()).add(i)


def conserved(h, pre, post, path, call):
    enc = hi.po_enc(call)
    e0, _ = hi.load_po(pre, path, enc, 'before')
    e1, _ = hi.load_po(post, path, enc, 'after')
    for e in e0:
        if (e['str'] or e['plurals']) and not any(
                x['key'] == e['key'] and (x['str'] or x['plurals'])
                for x in e1):
            raise Violation('lost-translation', f'{path}: {e["key"]!r} = '
                            f'{e["str"]!r}')


def execute(ctx, sc):
    h = hi.Hist(ctx, sc)
    for step in sc['steps']:
        if step['op'] != 'run':
            h.human(step)
            continue
        h.sources(step['call'], False)
        _, res, _ = h.run(step)
        engine.expect_ok(res, step['call'], 'earlier run')
    calls = sc['calls']
    n = len(calls)
    if n < 2:
        raise Invalid('one process')
    for c in calls:
        if c['tool'] in ('md2po', 'md2po2md'):
            h.sources(c, False)
        elif h.state.get(c['args']['src']) is None:
            raise Invalid('source')
    logs, alone = [], []
    for i, c in enumerate(calls):
        res, _ = ctx.run(h.state, c, {'rng': 70 + i})
        if not ok(res):
            raise Invalid(f'alone: {engine.brief(res)}')
        logs.append(res.log)
        alone.append(res)
    clo = Closure(ctx, h, calls)
    outs = {p for _, _, _, o in clo.parts for p in o}
    shared = any(p in ins for i, _, ins, _ in clo.parts
                 for j, _, _, o in clo.parts if i != j for p in o) or \
        any(p in o2 for i, _, _, o in clo.parts
            for j, _, _, o2 in clo.parts if i != j for p in o)
    keys = []
    hit = False
    for s in sc['scheds']:
        if 'schedule' in s:
            schedule, plans = s['schedule'], s['plans']
        else:
            schedule, plans = concrete(pj.seeded(s['sseed']), logs, n)
        try:
            one(ctx, h, calls, clo, outs, s['envs'], schedule, plans, keys)
        except Violation as v:
            v.fix = dict(sc, scheds=[dict(
                envs=s['envs'], schedule=schedule, plans=plans)])
            raise
        hit = True
    return repr(keys) if hit and shared else None


def one(ctx, h, calls, clo, outs, envs, schedule, plans, keys):
    n = len(calls)
    if len(envs) != n or len(plans) != n or \
            len({e.get('pid') for e in envs}) != n:
        raise Invalid('environments')
    res, trace, post = ctx.run_concurrent(h.state, calls, envs, plans,
                                          schedule)
    who = [t.split(' ')[0] for t in trace]
    sw = sum(a != b for a, b in zip(who, who[1:]))
    ctx.stats['switches'] += sw
    names = ' | '.join(f'{c["tool"]} ({c["via"]})' for c in calls)
    fired = [[f'{f[0]}:{f[2]} {f[3]}' for f in r.fired] for r in res]
    what = f'{names} {[f for f in fired if f]}'
    good = []
    for i, (c, r) in enumerate(zip(calls, res)):
        if r.how in ('hang', 'runaway'):
            raise Violation('no-end', f'{what}: process {i} does not end')
        good.append(ok(r))
        if not fired[i] and not good[i]:
            raise Violation('fails-together', f'{what}: process {i} '
                            f'({c["tool"]}) failed: {engine.brief(r)}')
        if c['args'].get('save') is None and not fired[i] and \
                c['tool'] in ('po2md', 'mdpo2html'):
            printed(ctx, clo, h, i, r, what)
    killed = any(seam.is_kill(f[2]) for r in res for f in r.fired)
    for p in sorted(set(h.state) | set(post)):
        if p in outs:
            continue
        a, b = h.state.get(p, 0), post.get(p, 0)
        if a == b or (b is None and a == 0):
            continue
        if a == 0 and any(fired):
            continue              # left behind; C01 and C06 judge that
        raise Violation('other-file', f'{what}: {p}: {engine.show(a)} -> '
                        f'{engine.show(b)}')
    for p in sorted(outs):
        b = post.get(p, 0)
        by = clo.by.get(p, {}).get(b, ())
        if by:
            continue
        if b == h.state.get(p, 0):
            writers = {i for i, _, _, o in clo.parts if p in o}
            if not any(good[i] for i in writers):
                continue
            raise Violation('not-written', f'{what}: {p} has its previous '
                            'content although a run that writes it succeeded')
        raise Violation('mixed', f'{what}: {p} is {engine.show(b)}, none of '
                        f'the {len(clo.by.get(p, {}))} versions of whole '
                        'runs')
    for p in sorted(outs):
        if p.endswith('.po') and h.state.get(p) and not any(
                c['tool'] == 'md2po' and c['args'].get('mode') == 'remove'
                for c in calls):
            conserved(h, h.state, post, p, calls[0])
    keys.append((sw, engine.state_hash(post), tuple(map(bool, fired)),
                 killed))


def printed(ctx, clo, h, i, r, what):
    """A document printed from complete versions of its inputs."""
    k, call, ins = next((k, p[1], p[2]) for k, p in enumerate(clo.parts)
                        if p[0] == i)
    last = r.results[-1]
    got = last['value']['text'] if last['value'] is not None \
        else last['out'].rstrip('\n')
    want = []
    for combo in itertools.product(*[clo.vers[p] for p in ins]):
        st = dict(h.state)
        for p, b in zip(ins, combo):
            if b == 0:
                st.pop(p, None)
            else:
                st[p] = b
                pj.add_dirs(st, p)
        memo = clo.__dict__.setdefault('memo', {})
        key = (k, combo)
        if key not in memo:
            res, _ = ctx.run(st, call, {'rng': 40 + len(memo)})
            if not ok(res):
                raise Invalid('alone')
            memo[key] = res.results[-1]['value']['text']
        want.append(memo[key])
    if not any(got == w or got == w.rstrip('\n') for w in want):
        raise Violation('printed', f'{what}: process {i} printed {got!r}, '
                        f'not one of {len(want)} documents')
