"""C11: extracting many sources equals merging their separate extractions."""

import copy

import history as hi
import project as pj
from engine import Invalid, Violation, expect_ok, ok

ID = 'C11'
RULE = ('2-4 sources, a third ending inside an open construct or right after '
        'a command, are extracted together (named by list, glob, globs in a '
        'list, any order, any directory order, API or command line, from '
        'scratch or on a PO file) and one by one; entries, order, comments, '
        'flags, references and callbacks of the joint run must be those of '
        'the separate runs merged in path order; then one source fails to be '
        'opened, read or decoded and the run must fail and write nothing; '
        'non-trivial when two sources had messages; distinct by sources and '
        'arguments')
COUNTS = {'quick': 2500, 'thorough': 40000}
ENDS = ['<!-- mdpo-disable -->', '<!-- mdpo-disable-next-block -->',
        '<!-- mdpo-enable-next-line -->', '<!-- mdpo-context left -->',
        '<!-- mdpo-translator left over -->', '<!-- mdpo-include-codeblock -->',
        '<!-- mdpo-disable-codeblock -->', '<!-- mdpo-include-codeblocks -->',
        '<!-- mdpo-disable-codeblocks -->', '## Heading', '- [[wiki]]',
        '> quote\n> - item', '1. one\n   - two', '```sh\nopen', '    code',
        '[ref1]: https://left.org "over"', '[ref1]: https://left.org',
        '| a | b |\n|---|---|\n| c | d |', '<div>\nhtml', '$$\nx\n$$',
        'text **bold', '`code', '![a](b "c")', '<!-- mdpo-include left -->',
        '<!-- other', '[alpha][ref1]', 'Setext\n===', '* * *']
TRACED = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text',
          'msgid', 'command', 'link_reference')


def gen(rng, tier):
    g = pj.ProjGen(rng, max_docs=4, dangling=rng.random() < .5,
                   wild=rng.random() < .5, flat=rng.random() < .6)
    while len(g.paths) < 2:
        g.paths = sorted(rng.sample(
            [p for p in pj.SOURCES if p.startswith('docs/')], 2))
        g.docs = {p: g.newdoc() for p in g.paths}
        g.past = {p: [d] for p, d in g.docs.items()}
    world = g.world()
    # messages in common
    for p in g.paths[1:]:
        if rng.random() < .35:
            d = copy.deepcopy(g.docs[p])
            d['blocks'] += copy.deepcopy(g.docs[g.paths[0]]['blocks'])
            if pj.dm.valid(d):
                world[p]['doc'] = d
    for p in g.paths:
        if rng.random() < .4:
            world[p]['tail'] = world[p].get('tail', '') + '\n' + \
                rng.choice(ENDS) + rng.choice(['', '\n', '\n\n'])
    ids = hi.ignore_setup(rng, g, world)
    flat = all(p.startswith('docs/') and p.count('/') == 1 for p in g.paths)
    names = [list(g.paths), list(reversed(g.paths)),
             rng.sample(g.paths, len(g.paths)),
             ]
    if all(p[:5] in ('docs/', 'guide') and p.count('/') == 1
           for p in g.paths):
        names += ['[dg]*/*.md'] * 2 + [['guide/*.md', 'docs/*.md']]
    if flat:
        names += ['docs/*.md', 'docs/*.md', 'docs/[a-zA-Z0-9ü]*.md']
    srcs = [rng.choice(names), rng.choice(names)]
    a = g.base_args('md2po')
    if ids:
        a['ignore_msgids'] = ids
    if rng.random() < .2:
        a['location'] = False
    if rng.random() < .2:
        a['include_codeblocks'] = True
    if rng.random() < .15:
        a['msgstr'] = 'default'
    if rng.random() < .15:
        a['plaintext'] = True
    if rng.random() < .15:
        a['ignore'] = [rng.choice(g.paths + ['a.md', 'sub', 'docs'])]
    if rng.random() < .15:
        a['extensions'] = rng.choice([
            ['tables'], ['collapse_whitespace', 'tables', 'underline'],
            ['tables', 'strikethrough', 'no_html_blocks'],
            ['latex_math_spans', 'wikilinks', 'tables']])
    return {'world': world, 'args': a, 'srcs': srcs,
            'traced': rng.random() < .4,
            'envs': [pj.random_env(rng) for _ in range(2)],
            'pick': rng.randrange(1000), 'where': rng.randrange(10000),
            'faults': [[rng.choice(['open_r', 'read']), rng.randrange(4),
                        rng.choice(['eio', 'eacces', 'emfile', 'estale'])]
                       for _ in range(2)]}


KEYS = ('id', 'ctx', 'str', 'comment', 'tcomment', 'flags', 'occ',
        'obsolete')


def entries(res):
    return [{k: e[k] for k in KEYS} for e in res.results[0]['value'][
        'entries']]


def execute(ctx, sc):
    h = hi.Hist(ctx, sc)
    pre, a = h.state, sc['args']
    args = dict(a)
    if sc.get('traced') and not a.get('plaintext'):
        args['events'] = {e: ['observe'] for e in TRACED}
    paths = sorted(p for p in sc['world'] if 'doc' in sc['world'][p]
                   and not hi.ignored(p, a.get('ignore') or ()))
    if not paths:
        raise Invalid('no sources')
    merged, seen, trace, full = [], set(), [], 0
    for p in paths:
        call = {'tool': 'md2po', 'via': 'api', 'args': dict(args, src=[p])}
        call['args'].pop('ignore', None)
        res, post = ctx.run(pre, call, {})
        expect_ok(res, call, 'separate run')
        if post != pre:
            raise Violation('writes', f'{p}: an unsaved extraction wrote')
        es = entries(res)
        full += bool(es)
        trace += res.results[0]['trace']
        for e in es:
            k = (e['id'], e['ctx'] or None)
            if k not in seen:
                seen.add(k)
                merged.append(e)
    for src, env in zip(sc['srcs'], sc['envs']):
        what = f'src={src}'
        named = [s for s in ([src] if isinstance(src, str) else src)]
        if any('*' not in s and '[' not in s and s not in sc['world']
               for s in named):
            raise Invalid('missing source')
        if sorted(q for q in pj.sources_of(src, pre) if not hi.ignored(
                q, a.get('ignore') or ())) != paths:
            raise Invalid('other sources')
        call = {'tool': 'md2po', 'via': 'api', 'args': dict(args, src=src)}
        res, post = ctx.run(pre, call, env)
        expect_ok(res, call, 'joint run')
        got = entries(res)
        if got != merged:
            raise Violation('joint-differs', f'{what}: {first(merged, got)}')
        if res.results[0]['trace'] != trace:
            raise Violation('callbacks', f'{what}: '
                            f'{first(trace, res.results[0]["trace"])}')
        # saved, by another way
        s = dict(a, src=src, po='locale/es.po', save=True)
        via = 'api'
        if not s.get('ignore_msgids') and 'msgstr' not in s and \
                sc['pick'] % 2:
            via = 'cli'
        call = {'tool': 'md2po', 'via': via, 'args': s}
        res, post = ctx.run(pre, call, env)
        expect_ok(res, call, 'joint run')
        es, _ = hi.load_po(post, 'locale/es.po', hi.po_enc(call), 'joint')
        x = [(e['id'], e['ctx'] or None, e['str'], ' '.join((
            e['comment'] or '').split()), sorted(e['flags'])) for e in merged]
        y = [(e['id'], e['ctx'], e['str'], e['c'], e['flags']) for e in es]
        if x != y:
            raise Violation('saved-differs', f'{what}: {first(x, y)}')
        full_state = post
    # one source fails
    src, env = sc['srcs'][0], sc['envs'][0]
    call = {'tool': 'md2po', 'via': 'cli' if sc['pick'] % 3 and
            not (a.get('ignore_msgids') or 'msgstr' in a) else 'api',
            'args': dict(a, src=src, po='locale/es.po', save=True,
                         mo='locale/es.mo')}
    if (a.get('md_encoding') or 'utf-8') == 'utf-8':
        p = paths[sc['pick'] % len(paths)]
        st = dict(pre if sc['where'] % 2 else full_state)
        t = st[p].decode()
        k = sc['where'] % (len(t) + 1)
        st[p] = t[:k].encode() + b'\xff\xfe' + t[k:].encode()
        fails(ctx, st, call, env, (), f'{p} cannot be decoded')
    for cls, nth, eff in sc.get('faults') or ():
        plan = [{'cls': cls, 'nth': nth, 'effect': eff}]
        st = pre if nth % 2 else full_state
        fails(ctx, st, call, env, plan, f'{cls} {nth} {eff}')
    if full < 2:
        return None
    return repr((sc['args'], sc['srcs'], x))


def fails(ctx, st, call, env, plan, what):
    res, post = ctx.run(st, call, env, plan)
    if plan and not res.fired:
        return
    if ok(res):
        if plan:
            return              # not a source that failed: see C05
        raise Violation('unreported', f'{what}: the run reports success')
    if post != st:
        import engine
        raise Violation('writes-on-failure', f'{what}: '
                        f'{engine.diff_states(st, post)}')


def first(x, y):
    for i in range(max(len(x), len(y))):
        p = x[i] if i < len(x) else '(nothing)'
        q = y[i] if i < len(y) else '(nothing)'
        if p != q:
            if isinstance(p, dict) and isinstance(q, dict):
                d = [k for k in p if p[k] != q[k]]
                return (f'entry {i} {p["id"]!r}/{q["id"]!r}: {d[0]}: '
                        f'{p[d[0]]!r} separately, {q[d[0]]!r} together')
            return f'{i}: {p!r} separately, {q!r} together'
    return 'equal'
