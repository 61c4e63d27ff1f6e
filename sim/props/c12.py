"""C12: after every successful run the PO mirrors the sources exactly."""

import history as hi
import project as pj
from engine import Violation, expect_ok, ok

ID = 'C12'
RULE = ('a project of 1-3 generated documents goes through 2-5 extraction '
        'runs (md2po in three modes and as plain text, md2po2md) with author and translator '
        'steps and, in a third of the projects, faults in between; each '
        'successful run is compared with the reference extraction; non-trivial '
        'when at least one message became obsolete, came back or was added to '
        'an existing PO file; distinct by the tools used, outcomes and the '
        'resulting file contents')
COUNTS = {'quick': 6000, 'thorough': 80000}


def gen(rng, tier):
    g = pj.ProjGen(rng, dangling=rng.random() < .3, declare=True)
    fault = .35 if rng.random() < .35 else 0
    n = rng.choice([2, 3, 3, 4, 5])
    if rng.random() < .75:
        return hi.gen_single(rng, g, n, fault,
                             plaintext=rng.random() < .15)
    return hi.gen_multi(rng, g, n, fault)


def check_po(pre, post, exp, mode, msgstr, path, stats):
    """One PO file before and after a successful extraction."""
    def bad(cls, msg):
        raise Violation(cls, f'{path} ({mode}): {msg}')
    act0 = [e['key'] for e in pre if not e['obsolete']]
    all0 = {e['key']: e for e in reversed(pre)}
    str0 = {}
    for e in pre:
        if e['str'] and (e['key'] not in str0 or not e['obsolete']):
            str0[e['key']] = e['str']
    act1 = [e['key'] for e in post if not e['obsolete']]
    obs1 = [e['key'] for e in post if e['obsolete']]
    want = [(m['id'], m['ctx']) for m in exp]
    # duplicates and exact set of active entries
    if len(set(act1)) != len(act1):
        d = [k for k in act1 if act1.count(k) > 1]
        bad('duplicate-entry', f'{d[0]!r}')
    need = set(want)
    if mode == 'merge':
        need |= set(act0)
    for k in need - set(act1):
        bad('missing-entry', f'{k!r} is not active')
    for k in set(act1) - need:
        bad('extra-entry', f'{k!r} is active')
    # the rest
    gone = [k for k in all0 if k not in set(want)]
    if gone:
        stats['gone'] = 1
    for k in gone:
        e0 = [e for e in pre if e['key'] == k]
        e1 = [e for e in post if e['key'] == k]
        if mode == 'remove':
            if e1:
                bad('not-removed', f'{k!r}')
            continue
        if not e1:
            bad('lost-entry', f'{k!r}')
        if mode == 'mark' and not all(e['obsolete'] for e in e1):
            bad('not-obsolete', f'{k!r}')
        if mode == 'merge' and [e['obsolete'] for e in e0] != \
                [e['obsolete'] for e in e1]:
            bad('changed-state', f'{k!r} is not kept as it was')
        for f in ('str', 'plural', 'plurals', 'fuzzy', 'tc'):
            if sorted(map(repr, (e[f] for e in e0))) != \
                    sorted(map(repr, (e[f] for e in e1))):
                bad('changed-entry', f'{k!r}: {f} '
                    f'{[e[f] for e in e0]} -> {[e[f] for e in e1]}')
    for k in obs1:
        if k not in all0:
            bad('extra-entry', f'obsolete {k!r} was not there')
    # values of active entries of the sources
    by1 = {e['key']: e for e in post if not e['obsolete']}
    for m in exp:
        k = (m['id'], m['ctx'])
        e = by1[k]
        default = m['id'] if m['ref'] else msgstr
        if k in str0:
            allowed = {x['str'] for x in pre if x['key'] == k and x['str']}
        elif k in set(act0):
            allowed = {'', default}
        elif k in all0:
            allowed = {'', default}
            stats['back'] = 1
        else:
            allowed = {default}
            stats['new'] = 1
            c = ' '.join((m['comment'] or '').split())
            if e['c'] != c:
                bad('comment', f'{k!r} has comment {e["c"]!r}, not {c!r}')
            if e['flags'] != ['fuzzy'] * bool(m['ref']) or e['tc']:
                bad('extra-data', f'{k!r}: {e["flags"]} {e["tc"]!r}')
        if e['str'] not in allowed:
            bad('msgstr', f'{k!r} has {e["str"]!r}, not {sorted(allowed)}')
    # order
    def order(name, xs, ys):
        if xs != ys:
            bad('order', f'{name}: {xs} -> {ys}')
    both = [k for k in act0 if k in set(act1)]
    order('kept active entries', both, [k for k in act1 if k in set(act0)])
    first = {}
    for e in pre:
        first.setdefault(e['key'], len(first))
    ob = [k for k in dict.fromkeys(obs1) if k in first and k not in need]
    groups = {e['key']: e['obsolete'] for e in pre}
    for grp in (False, True):
        xs = [k for k in ob if groups[k] is grp]
        order('obsolete entries', sorted(xs, key=first.get), xs)
    truly = [k for k in want if k not in all0]
    order('new entries', truly, [k for k in act1 if k not in all0])
    if truly and both:
        last = max(i for i, k in enumerate(act1) if k in set(act0))
        if min(act1.index(k) for k in truly) < last:
            bad('order', 'a new entry stands before kept ones')


def execute(ctx, sc):
    h = hi.Hist(ctx, sc)
    stats = {}
    for step in sc['steps']:
        if step['op'] != 'run':
            h.human(step)
            continue
        call = step['call']
        if call['tool'] == 'po2md':
            continue
        h.sources(call)
        enc = hi.po_enc(call)
        pre, res, post = h.run(step)
        if not res.fired:
            expect_ok(res, call)
        if not ok(res):
            continue
        if pj.is_power(step.get('plan') or ()):
            continue
        a = call['args']
        for src, po, _ in hi.pairs(h, call):
            e0, _ = hi.load_po(pre, real(po, pre), enc, 'before')
            if post.get(real(po, post)) is None:
                raise Violation('no-output', f'{po} was not written')
            e1, _ = hi.load_po(post, real(po, post), enc, 'after')
            check_po(e0, e1, h.messages(call, src), a.get('mode', 'mark'),
                     a.get('msgstr') or '', po, stats)
    return repr(h.key) if stats else None


def real(path, state):
    b = state.get(path)
    if b is not None and b.startswith(b'->'):
        return b[2:].decode()
    return path
