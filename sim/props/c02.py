"""C02: translations survive every history of edits, runs and failures."""

import history as hi
import project as pj
from engine import Violation, expect_ok, ok
from props.c12 import real

ID = 'C02'
RULE = ('a project of 1-3 documents and its PO files go through 2-6 runs '
        '(md2po in three modes, md2po2md, po2md) with author and translator '
        'steps in between, half of the runs with a fault (error, interrupt, '
        'failed allocation, kill or power cut) at a random operation; after '
        'each run every translation, fuzzy mark and header field of the PO '
        'before it is looked for in the PO after it; non-trivial when the PO '
        'before a run held a translation; distinct by tools, outcomes, fired '
        'faults and resulting file contents')
COUNTS = {'quick': 4000, 'thorough': 60000}


def gen(rng, tier):
    g = pj.ProjGen(rng, dangling=rng.random() < .2, declare=True)
    n = rng.choice([2, 3, 4, 5, 6])
    fault = rng.choice([0, .5, .5, .8])
    if rng.random() < .75:
        return hi.gen_single(rng, g, n, fault, translate=rng.random() < .3)
    return hi.gen_multi(rng, g, n, fault)


def best(entries, key):
    """The entry that holds the translation of a message."""
    es = [e for e in entries if e['key'] == key and (e['str'] or
                                                     e['plurals'])]
    for e in es:
        if not e['obsolete']:
            return e
    return es[0] if es else None


def check_po(e0, h0, e1, h1, exp, call, path, done):
    a = call['args']
    mode = a.get('mode', 'mark')

    def bad(cls, msg):
        raise Violation(cls, f'{path} ({call["tool"]} {mode}, '
                        f'{"done" if done else "failed"}): {msg}')
    here = {(m['id'], m['ctx']) for m in exp}
    keys = []
    for e in e0:
        if (e['str'] or e['plurals']) and e['key'] not in keys:
            keys.append(e['key'])
    for k in keys:
        old = best(e0, k)
        new = [e for e in e1 if e['key'] == k]
        act = [e for e in new if not e['obsolete']]
        if not new and mode == 'remove' and k not in here:
            continue
        if not new:
            bad('lost-translation', f'{k!r} = {old["str"]!r}')
        # where it must be after a completed run
        e = act[0] if act else best(new, k) or new[0]
        if done and k in here and not act:
            bad('not-in-use', f'{k!r} is in the sources')
        variants = [(x['str'], x['plurals'], x['fuzzy']) for x in e0
                    if x['key'] == k and (x['str'] or x['plurals'])
                    and x['obsolete'] == old['obsolete']]
        if (e['str'], e['plurals']) not in [v[:2] for v in variants]:
            bad('changed-translation', f'{k!r}: {old["str"]!r} -> '
                f'{e["str"]!r}')
        if (e['str'], e['plurals'], e['fuzzy']) not in variants:
            bad('fuzzy-mark', f'{k!r} = {old["str"]!r}: fuzzy '
                f'{old["fuzzy"]} -> {e["fuzzy"]}')
        stay = not old['obsolete'] and act and \
            sum(x['key'] == k for x in e0) == 1
        if stay:
            for f in ('tc', 'flags', 'prev'):
                if e[f] != old[f]:
                    bad('lost-data', f'{k!r}: {f} {old[f]!r} -> {e[f]!r}')
    # untranslated entries that stay in use keep their comments and flags
    for old in e0:
        if old['obsolete'] or old['str'] or old['plurals'] or \
                sum(x['key'] == old['key'] for x in e0) != 1:
            continue
        act = [e for e in e1 if e['key'] == old['key'] and
               not e['obsolete']]
        for e in act[:1]:
            for f in ('tc', 'flags', 'prev'):
                if e[f] != old[f]:
                    bad('lost-data', f'{old["key"]!r}: {f} {old[f]!r} -> '
                        f'{e[f]!r}')
    # header
    if h1.intro != h0.intro:
        bad('header', f'comment and mark {h0.intro!r} -> {h1.intro!r}')
    own = dict(a.get('metadata') or {}) if call['tool'] == 'md2po' else {}
    if a.get('xheader'):
        own['X-Generator'] = None
    for f, v in h0.items():
        if h1.get(f) == v:
            continue
        if f in own and own[f] in (None, h1.get(f)):
            continue
        bad('header', f'{f}: {v!r} -> {h1.get(f)!r}')
    if done:
        for f, v in own.items():
            if f not in h1 or v is not None and h1[f] != v:
                bad('header', f'{f} was set to {v!r} but is {h1.get(f)!r}')
        for f in set(h1) - set(h0) - set(own):
            if h0:
                bad('header', f'{f} = {h1[f]!r} appeared')
    return bool(keys)


def execute(ctx, sc):
    h = hi.Hist(ctx, sc)
    interesting = False
    for step in sc['steps']:
        if step['op'] != 'run':
            h.human(step)
            continue
        call = step['call']
        if call['tool'] == 'po2md':
            if h.state.get(call['args']['src']) is None:
                continue
            pre, res, post = h.run(step)
            for p in set(pre) | set(post):
                if p.endswith('.po') and pre.get(p, 0) != post.get(p, 0):
                    raise Violation('translator-changed-po', p)
            continue
        h.sources(call)
        enc = hi.po_enc(call)
        pre, res, post = h.run(step)
        if not res.fired:
            expect_ok(res, call)
        touched = set()
        for src, po, _ in hi.pairs(h, call):
            p = real(po, pre)
            touched.add(p)
            if po != p:
                touched.add(po)
                if post.get(po) != pre[po]:
                    raise Violation('lost-link', f'{po} is no longer a link')
            if pre.get(p) is None:
                continue
            if post.get(p) is None:
                raise Violation('lost-file', f'{p} vanished')
            e0, h0 = hi.load_po(pre, p, enc, 'before')
            e1, h1 = hi.load_po(post, p, enc, 'after')
            if check_po(e0, h0, e1, h1, h.messages(call, src), call, p,
                        ok(res)):
                interesting = True
        for p in pre:
            if p.endswith('.po') and p not in touched and \
                    post.get(p) != pre[p]:
                raise Violation('foreign-po', f'{p} is not an output but '
                                'changed')
    return repr(h.key) if interesting else None
