"""One command on a project with a past: shared by the fault checks."""

import history as hi
import project as pj
import seam
from engine import Invalid, Violation, expect_ok, ok

EVENTS = ('def msgid(self, msgid, *args):\n    return None\n\n\n'
          'def text(self, block, text):\n    return None\n')


def gen(rng, g=None, stdout=True, events=True):
    """World, past steps and a final call."""
    g = g or pj.ProjGen(rng, dangling=rng.random() < .2,
                        wild=rng.random() < .25, declare=True)
    world = g.world()
    ids = hi.ignore_setup(rng, g, world)
    kind = rng.choice(['md2po'] * 4 + ['po2md'] * 4 + ['md2po2md'] * 4 +
                      ['mdpo2html'] * 2)
    steps = []
    if kind == 'md2po2md':
        base = g.md2po2md()
        call = g.md2po2md()
        for k in ('schema', 'src'):
            call['args'][k] = base['args'][k]
        if rng.random() < .7:
            call['args']['langs'] = base['args']['langs']
        pos = [po for p in g.paths for _, po, _ in
               pj.md2po2md_files(base['args'], p)]
        if rng.random() < .7:
            steps.append({'op': 'run', 'call': base, 'env': {}})
            for _ in range(2):
                steps.append(g.translation(rng.choice(pos), .9))
            if rng.random() < .5:
                steps.append({'op': 'run', 'call': base, 'env': {}})
            for _ in range(rng.choice([0, 1, 2])):
                steps.append(g.edit())
        return {'world': world, 'steps': steps, 'call': call}
    po = 'locale/es.po'
    if rng.random() < .12:
        world['lnk.po'] = {'link': 'locale/es.po'}
    ext = hi.extract_call(rng, g, ids, po=po, mode='mark')
    if kind != 'md2po' or rng.random() < .75:
        steps.append({'op': 'run', 'call': ext, 'env': {}})
        steps.append(g.translation(po, .9))
        if rng.random() < .3:
            steps.append(g.edit())
            steps.append({'op': 'run', 'call': hi.extract_call(
                rng, g, ids, po=po, mode='mark'), 'env': {}})
            steps.append(g.translation(po, .9))
    if kind == 'md2po':
        for _ in range(rng.choice([0, 1, 2])):
            steps.append(g.edit())
        call = hi.extract_call(rng, g, ids, po='lnk.po' if 'lnk.po' in world
                               and steps else po)
        if stdout and rng.random() < .1:
            for k in ('save', 'check', 'mo'):
                call['args'].pop(k, None)
    else:
        p = rng.choice(g.paths)
        out = 'out/doc.html' if kind == 'mdpo2html' else 'out/doc.md'
        src = p
        if kind == 'mdpo2html':
            src = 'docs/in.html'
            steps.append({'op': 'write', 'path': src,
                          'file': g.published(g.docs[p])})
        pos = rng.choice([[po], [po], ['locale/*.po']])
        make = g.html if kind == 'mdpo2html' else g.po2md
        call = make(src, pos, None if stdout and rng.random() < .2 else out)
        if call['args'].get('save') is None:
            call['args'].pop('check', None)
            call['args'].pop('quiet', None)
        elif rng.random() < .6:
            if rng.random() < .6:
                steps.append({'op': 'run', 'call': make(src, pos, out),
                              'env': {}})
            else:
                steps.append({'op': 'write', 'path': out, 'file': {
                    'text': 'previous content\n' * rng.choice([1, 400]),
                    'enc': g.enc if kind == 'po2md' else g.html_enc}})
            if kind == 'mdpo2html':
                steps.append({'op': 'write', 'path': src, 'file':
                              g.published(g.mutate(g.docs[p]))})
            else:
                d = g.mutate(g.docs[p])
                steps.append({'op': 'write', 'path': p, 'file': {
                    'doc': d, 'enc': g.enc}})
            if rng.random() < .5:
                steps.append(g.translation(po, .9))
    if events and kind != 'mdpo2html' and rng.random() < .1:
        world['ev.py'] = {'text': EVENTS}
        call['args']['events'] = {'msgid': ['ev.py::msgid'],
                                  'text': ['ev.py::text']}
        if rng.random() < .3:
            call['args']['events']['text'] = ['./ev.py::text']
    if kind != 'mdpo2html' and rng.random() < .06:
        call['args']['debug'] = True
    return {'world': world, 'steps': steps, 'call': call}


def past(ctx, sc):
    """Play the steps of a scenario; every run must succeed."""
    h = hi.Hist(ctx, sc)
    for step in sc['steps']:
        if step['op'] != 'run':
            h.human(step)
            continue
        c = step['call']
        if c['tool'] in ('md2po', 'md2po2md'):
            h.sources(c)
        elif h.state.get(c['args']['src']) is None:
            raise Invalid('source')
        _, res, _ = h.run(step)
        expect_ok(res, c, 'earlier run')
    c = sc['call']
    hi.check_declared(c, h.state)
    if c['tool'] in ('md2po', 'md2po2md'):
        h.sources(c, False)
    elif 'stdin' in c:
        pass
    elif h.state.get(c['args']['src']) is None:
        raise Invalid('source')
    return h


def reference(ctx, h, call, env):
    res, post = ctx.run(h.state, call, env)
    return res, post


def line_total(res):
    return res.counts.get('lines', 0)


def line_fault(rng, res):
    """An interrupt at a line of the reference run (of a traced one)."""
    n = res.counts.get('lines', 0)
    if not n:
        return None
    hot = res.counts.get('hot') or []
    if hot and rng.random() < .7:
        k = rng.choice(hot)
    else:
        k = rng.randrange(n)
    return {'cls': 'line', 'nth': k, 'effect': 'interrupt'}


TRACE = [{'cls': 'line', 'nth': 1 << 40, 'effect': 'interrupt'}]


def plans(rng, log, n, kinds, traced=None):
    """Fault plans for one command, from the operations of a clean run."""
    out = []
    for _ in range(n):
        f = None
        if traced is not None and rng.random() < .25 and \
                kinds in ('all', 'failures'):
            f = line_fault(rng, traced)
        if f is None:
            f = pj.pick_fault(rng, log, kinds)
        if f is None:
            continue
        plan = [f]
        if rng.random() < .12 and not seam.is_kill(f['effect']):
            g = rng.choice([
                {'cls': 'unlink', 'nth': 0, 'effect': rng.choice(
                    ['eio', 'crash', 'interrupt', 'crash_after']
                    if kinds == 'all' else ['eio'])},
                pj.pick_fault(rng, log, kinds)])
            if g:
                plan.append(g)
        out.append(plan)
    return out


def strays(known, post):
    return [p for p in post if p not in known and post[p] is not None]
