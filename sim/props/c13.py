"""C13: translated documents show the current PO in the source structure."""

import itertools

import history as hi
import project as pj
from engine import Invalid, Violation, expect_ok, ok
from props.c12 import real

ID = 'C13'
RULE = ('a project of 1-3 documents, 1-3 PO files and runs of md2po, po2md '
        'and md2po2md with author and translator steps and faults in between; '
        'each successful translation is rendered and compared with the '
        'rendering of the source with the non-empty translations of the PO '
        'files put in by the reference model; non-trivial when a compared '
        'document held at least one translation; distinct by tools, outcomes '
        'and resulting file contents')
COUNTS = {'quick': 4000, 'thorough': 60000}


def messages(g):
    return pj.dm.extraction(g.docs.values(), True)


def glossary(rng, g, refs=False):
    """A PO file written by hand, with some of the messages."""
    entries, seen = [], set()
    for m in messages(g):
        if refs and m['ref']:       # their definitions, whole
            entries.append({'id': m['id'], 'ctx': None, 'str': m['id'],
                            'flags': ['fuzzy']})
            continue
        if rng.random() > .5 or m['ref']:
            continue
        e = {'id': m['id'], 'ctx': m['ctx']}
        r = rng.random()
        if r < .65:
            e['str'] = pj.text_for(m['id'], g.tr())
        if r < .75 and rng.random() < .2:
            e['flags'] = ['fuzzy']
        if rng.random() < .15:
            e['obsolete'] = True
        if rng.random() < .1:
            e['ctx'] = rng.choice([None, 'menu', 'other'])
        if (e['id'], e.get('ctx')) in seen:
            continue
        seen.add((e['id'], e.get('ctx')))
        entries.append(e)
    rng.shuffle(entries)
    po = {'entries': entries, 'wrap': rng.choice([78, 30]),
          'header': rng.choice([{}, {'Language': 'es'}]),
          'enc': g.po_enc or 'utf-8'}
    if rng.random() < .25:
        po[rng.choice(['compact', 'crlf'])] = True
    return {'op': 'write', 'path': rng.choice(
        ['locale/aa.po', 'locale/zz.po', 'locale/fr.po', 'more/es.po']),
        'file': {'po': po}}


def ignored(rng, call):
    if rng.random() < (.1 if len(call['args']['pofiles']) == 1 else .3):
        call['args']['ignore'] = [rng.choice(
            ['aa.po', 'locale/zz.po', 'fr.po', 'more', 'more/es.po'])]


POS = [['locale/es.po'], ['locale/es.po'], ['locale/*.po'], 'locale/*.po',
       ['locale/zz.po', 'locale/es.po'], ['locale/es.po', 'locale/aa.po'],
       ['locale/f*.po', 'locale/*.po'], ['locale/es.po', 'more/es.po'],
       '*/es.po', ['more/*.po', 'locale/*.po']]


def gen(rng, tier):
    g = pj.ProjGen(rng, dangling=rng.random() < .2, declare=True)
    fault = rng.choice([0, 0, .4])
    if rng.random() < .2:
        return hi.gen_multi(rng, g, rng.choice([1, 2, 3]), fault)
    world = g.world()
    steps = []
    for i in range(rng.choice([1, 2, 2, 3])):
        if i:
            steps += hi.human_steps(rng, g, ['locale/es.po'])
        if rng.random() < .85:
            steps.append(hi.run_step(rng, g.md2po(
                src=hi.all_sources(g), msgstr=None), fault))
        if rng.random() < .9:
            steps.append(g.translation('locale/es.po', .95))
        if rng.random() < .55:
            steps.append(glossary(rng, g))
        for p in g.paths:
            if rng.random() < .3:
                continue
            pos = rng.choice(POS)
            c = g.po2md(p, pos, rng.choice(
                [None, None, 'out/' + p.replace('/', '_'), 'out/x.md']))
            if c['via'] != 'api' and isinstance(pos, str):
                c['args']['pofiles'] = [pos]
            ignored(rng, c)
            if c['args'].get('save') is None:
                c['args'].pop('quiet', None)
            steps.append(hi.run_step(rng, c, fault))
    return {'world': world, 'steps': steps}


def po_list(call, state):
    """PO files of a po2md call, in the order they are read."""
    a = call['args']
    out = []
    for pat in [a['pofiles']] if isinstance(a['pofiles'], str) \
            else a['pofiles']:
        for f in pj.matches(pat, state):
            if not hi.ignored(f, a.get('ignore') or ()) and f not in out:
                out.append(f)
    return out


def choices(pos):
    """{key: [acceptable translations]} of entries of several PO files."""
    act, obs = {}, {}
    for entries in pos:
        for e in entries:
            if not e['str']:
                continue
            d = obs if e['obsolete'] else act
            d.setdefault(e['key'], [])
            if e['str'] not in d[e['key']]:
                d[e['key']].append(e['str'])
    out = {k: [None] + v for k, v in obs.items()}
    out.update(act)
    return out


def md_of(doc, lookup):
    return pj.dm.html(pj.dm.translated(doc, lookup),
                      pj.dm.nested(doc['blocks']))


def check_md(doc, pos, text, what, ctx=None):
    # the lists may become tight or loose
    return check(doc, pos, pj.dm.html(text, pj.dm.nested(doc['blocks'])),
                 md_of, what, ctx, text)


def same(a, b):
    """Length of the common start of two texts."""
    return next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                min(len(a), len(b)))


def check(doc, pos, got, render, what, ctx=None, text=None):
    """Compare a rendered document with the one of the model.

    Returns whether some translation was used.
    """
    ch = choices(pos)
    used = set()

    def first(i, c):
        k = (i, c or None)
        if k in ch:
            used.add(k)
            return ch[k][0]
        return None
    best, want = first, render(doc, first)
    if want == got:
        return any(ch[k][0] for k in used)
    amb = [k for k in sorted(used, key=repr) if len(ch[k]) > 1]
    n = 1
    for k in amb:
        n *= len(ch[k])
    if 1 < n:
        if n > 600:
            if ctx:
                ctx.note('ambiguous')
            return False
        for combo in itertools.product(*(ch[k] for k in amb)):
            pick = dict(zip(amb, combo))

            def lookup(i, c, pick=pick):
                k = (i, c or None)
                if k in pick:
                    return pick[k]
                return ch[k][0] if k in ch else None
            one = render(doc, lookup)
            if one == got:
                return True
            if same(one, got) > same(want, got):
                want, best = one, lookup    # the nearest one
    if not all(map(pj.dm.steady, pj.dm.parsed(lambda: render(doc, best)) +
                   [pj.dm.markdown(doc), text or ''])):
        if ctx:
            ctx.note('parser')      # the failure is of md4c
        return False
    w = want
    i = same(w, got)
    raise Violation('wrong-translation', f'{what}: ...{got[max(0, i - 40):i + 80]!r}'
                    f' instead of ...{w[max(0, i - 40):i + 80]!r}')


def same_but(pre, post, outs, what):
    for p in set(pre) | set(post):
        if p not in outs and pre.get(p, 0) != post.get(p, 0) and \
                post.get(p, 0) is not None and not p.endswith('/'):
            raise Violation('modified-input', f'{what}: {p}')


def execute(ctx, sc):
    h = hi.Hist(ctx, sc)
    hit = False
    for step in sc['steps']:
        if step['op'] != 'run':
            h.human(step)
            continue
        call = step['call']
        a = call['args']
        enc = hi.po_enc(call)
        menc = a.get('md_encoding') or 'utf-8'
        if call['tool'] != 'po2md':
            h.sources(call)
            pre, res, post = h.run(step)
            if not res.fired:
                expect_ok(res, call)
            if call['tool'] == 'md2po2md' and ok(res) and \
                    not pj.is_power(step.get('plan') or ()):
                for src, po, md in hi.pairs(h, call):
                    e, _ = hi.load_po(post, po, enc, 'after')
                    if post.get(md) is None:
                        raise Violation('no-output', md)
                    if check_md(h.docs[src], [e], post[md].decode(menc),
                                f'md2po2md {md}', ctx):
                        hit = True
            continue
        src = a['src']
        if src not in h.docs:
            raise Invalid('source')
        pofiles = po_list(call, h.state)
        if any(h.state.get(real(p, h.state)) is None for p in pofiles):
            continue
        pre, res, post = h.run(step)
        if not res.fired:
            expect_ok(res, call)
        outs = {a['save']} if a.get('save') else set()
        if not res.fired:
            same_but(pre, post, outs, 'po2md')
        if not ok(res) or pj.is_power(step.get('plan') or ()):
            continue
        pos = [hi.load_po(pre, real(p, pre), enc, 'before')[0]
               for p in pofiles]
        for p in pofiles + [src]:
            if post.get(p) != pre.get(p):
                raise Violation('modified-input', p)
        r = res.results[0]
        text = None
        if a.get('save'):
            if post.get(a['save']) is None:
                raise Violation('no-output', a['save'])
            text = post[a['save']].decode(menc)
        elif call['via'] == 'api':
            text = r['value']['text']
        elif not a.get('quiet'):
            text = r['out']
        if text is not None and check_md(
                h.docs[src], pos, text, f'po2md {src} with {pofiles}', ctx):
            hit = True
    return repr(h.key) if hit else None
