"""C16: translated HTML shows the current PO in the source structure."""

import functools
import re

import history as hi
import project as pj
from engine import Invalid, Violation, expect_ok, ok
from props.c12 import real
from props.c13 import POS, check, glossary, ignored, po_list, same_but

ID = 'C16'
RULE = ('a project of 1-3 documents published as HTML pages, 1-3 PO files and '
        'runs of md2po and mdpo2html with author and translator steps and '
        'faults in between; each successful translation of a page is compared '
        'with the rendering of its document with the non-empty translations '
        'of the PO files put in by the reference model; non-trivial when a '
        'compared page held at least one translation; distinct by tools, '
        'outcomes and resulting file contents')
COUNTS = {'quick': 4000, 'thorough': 60000}


REF = re.compile(r'\[(r[qxyz]\d+)\]')


def page(path):
    return 'site/' + path.replace('/', '_')[:-3] + '.html'


def gen(rng, tier):
    # entities are published as the characters they stand for
    g = pj.ProjGen(rng, dangling=rng.random() < .2, declare=True,
                   entities=False)
    fault = rng.choice([0, 0, .4])
    world = g.world()
    steps = []
    pages = {}
    for i in range(rng.choice([1, 2, 2, 3])):
        if i:
            steps += hi.human_steps(rng, g, ['locale/es.po'])
        if rng.random() < .85:
            steps.append(hi.run_step(rng, g.md2po(
                src=hi.all_sources(g), msgstr=None), fault))
        if rng.random() < .9:
            steps.append(g.translation('locale/es.po', .95))
        if rng.random() < .55:
            steps.append(glossary(rng, g, True))
        for p in g.paths:
            if p not in pages or rng.random() < .7:    # published again
                pages[p] = page(p)
                steps.append({'op': 'write', 'path': pages[p], 'file':
                              g.published(g.docs[p])})
        for p in sorted(pages):
            if rng.random() < .3:
                continue
            pos = rng.choice(POS)
            c = g.html(pages[p], pos, rng.choice(
                [None, None, 'out/' + pages[p].replace('/', '_'),
                 'out/x.html']))
            if c['via'] != 'api' and isinstance(pos, str):
                c['args']['pofiles'] = [pos]
            ignored(rng, c)
            if c['args'].get('save') is None:
                c['args'].pop('quiet', None)
            steps.append(hi.run_step(rng, c, fault))
    return {'world': world, 'steps': steps}


def html_of(doc, lookup, spec=()):
    refs = {r[0]: pj.dm.ref_line(r) for r in doc.get('refs', ())}

    def tr(i, c):
        # the code blocks of pages are not translated; the links of other
        # texts are not changed
        if i.endswith('\n') or i in refs.values():
            return None
        out = lookup(i, c)
        names = REF.findall(i)
        if names:
            # known by the definitions that the PO files have
            defs = [lookup(refs[n], None) for n in names]
            if not out or not all(defs):
                return None
            to = {n: d.split(': ', 1)[1] for n, d in zip(names, defs)}
            out = re.sub(r'\[([^][]+)\]\[(r[qxyz]\d+)\]',
                         lambda m: f'[{m[1]}]({to[m[2]]})', out)
            out = re.sub(r'\[(r[qxyz]\d+)\](?!\()',
                         lambda m: f'[{m[1]}]({to[m[1]]})', out)
        return out
    return pj.dm.html_of(pj.published(
        spec or {}, pj.raw_html(pj.dm.translated(doc, tr, cmds=True))))


def execute(ctx, sc):
    h = hi.Hist(ctx, sc)
    hit = False
    docs, specs = {}, {}
    for step in sc['steps']:
        if step['op'] != 'run':
            h.human(step)
            if step['op'] == 'write' and 'html' in step['file']:
                docs[step['path']] = step['file']['html']
                specs[step['path']] = step['file']
            continue
        call = step['call']
        a = call['args']
        if call['tool'] != 'mdpo2html':
            h.sources(call)
            pre, res, post = h.run(step)
            if not res.fired:
                expect_ok(res, call)
            continue
        src = a['src']
        if src not in docs or h.state.get(src) is None or \
                not pj.dm.valid(docs[src]) or \
                specs[src].get('enc', 'utf-8') != \
                a.get('html_encoding', 'utf-8'):
            raise Invalid('page')
        pofiles = po_list(call, h.state)
        if any(h.state.get(real(p, h.state)) is None for p in pofiles):
            continue
        pre, res, post = h.run(step)
        if not res.fired:
            expect_ok(res, call)
            same_but(pre, post, {a['save']} if a.get('save') else set(),
                     'mdpo2html')
        if not ok(res) or pj.is_power(step.get('plan') or ()):
            continue
        pos = [hi.load_po(pre, real(p, pre), hi.po_enc(call), 'before')[0]
               for p in pofiles]
        for p in pofiles + [src]:
            if post.get(p) != pre.get(p):
                raise Violation('modified-input', p)
        r = res.results[0]
        text = None
        if a.get('save'):
            if post.get(a['save']) is None:
                raise Violation('no-output', a['save'])
            text = post[a['save']].decode(a.get('html_encoding') or 'utf-8')
        elif call['via'] == 'api':
            text = r['value']['text']
        elif not a.get('quiet'):
            text = r['out']
        if text is not None and check(
                docs[src], pos, pj.dm.html_of(text),
                functools.partial(html_of, spec=specs[src]),
                f'mdpo2html {src} with {pofiles}', ctx):
            hit = True
    return repr(h.key) if hit else None
