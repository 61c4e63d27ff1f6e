"""C07: --check and the gate options report the truth in every history."""

import re

import history as hi
import project as pj
from engine import Invalid, Violation, expect_ok, ok
from props.c12 import real
from props.c13 import glossary, po_list

ID = 'C07'
RULE = ('a project goes through 2-5 runs of all four tools with --check and '
        'the gate options at random, with author and translator steps, '
        'deleted and restored outputs and failed runs in between; the exit '
        'status (or the returned tuple) and every reported location are '
        'compared with the files before and after each run, read by a parser '
        'of the harness; non-trivial when at least two different statuses '
        'were seen; distinct by calls, statuses and contents')
COUNTS = {'quick': 3500, 'thorough': 60000}
GATES = ('no_obsolete', 'no_fuzzy', 'no_empty_msgstr')


def options(rng, call):
    a = call['args']
    a.pop('check', None)
    if rng.random() < .6:
        a['check'] = True
    for gate in GATES:
        if rng.random() < .35:
            a[gate] = True
    a.pop('debug', None)
    return call


def gen(rng, tier):
    g = pj.ProjGen(rng, dangling=rng.random() < .1, declare=True)
    g.head_fuzzy = False    # it is up to each one whether the header counts
    fault = rng.choice([0, 0, .3])
    multi = rng.random() < .3
    if multi:
        sc = hi.gen_multi(rng, g, rng.choice([2, 3, 4]), fault)
    else:
        sc = hi.gen_single(rng, g, rng.choice([2, 3]), fault, translate=True)
    steps = []
    for s in sc['steps']:
        if s['op'] == 'run':
            c = s['call']
            if multi or c['via'] != 'api':
                options(rng, c)
            steps.append(s)
            if c['tool'] == 'po2md' and rng.random() < .25:
                out = c['args'].get('save')
                src = c['args']['src']
                if src in g.docs:
                    steps.append({'op': 'write', 'path': 'docs/in.html',
                                  'file': g.published(g.docs[src])})
                    pos = c['args']['pofiles'] if rng.random() < .5 \
                        else ['locale/*.po']
                    html = g.html('docs/in.html', pos,
                                  'out/in.html' if out else None, via='cli')
                    steps.append(hi.run_step(rng, options(rng, html), fault))
            if rng.random() < .35:     # again, or with an output gone
                if rng.random() < .5:
                    steps.append({'op': 'delete', 'path': rng.choice(
                        ['locale/es.mo', c['args'].get('save') or
                         'locale/es.mo', 'out/in.html'])
                        if not multi else rng.choice(
                            [x for p in g.paths for _, *y in
                             pj.md2po2md_files(c['args'], p) for x in y])})
                again = dict(s, call={**c, 'args': dict(c['args'])})
                again.pop('plan', None)
                if multi or c['via'] != 'api':
                    options(rng, again['call'])
                steps.append(again)
        else:
            steps.append(s)
    if not multi and rng.random() < .2:
        i = rng.randrange(1, len(steps) + 1)
        steps.insert(i, glossary(rng, g))
    sc['steps'] = steps
    return sc


def paragraphs(data):
    """Entries of a PO file as (first line, last line, kinds)."""
    out, cur, start = [], [], 0
    said = False        # a translation of the entry has been read
    for i, line in enumerate(data.split(b'\n') + [b''], 1):
        x = line.strip()
        y = x[3:] if x.startswith(b'#~ ') else x
        new = not x or said and (
            y.startswith((b'msgid', b'msgctxt'))
            and not y.startswith(b'msgid_plural')
            or x.startswith(b'#') and not x.startswith(b'#~ '))
        if new and cur:
            out.append((start, i - 1, kinds(cur)))
            cur, said = [], False
        if x:
            if not cur:
                start = i
            cur.append(x)
            said = said or y.startswith(b'msgstr')
    return out


def kinds(lines):
    obsolete = any(x.startswith(b'#~') for x in lines)
    fuzzy = any(x.startswith(b'#,') and b'fuzzy' in
                [y.strip() for y in x[2:].split(b',')] for x in lines)
    field, text = None, {}
    for x in lines:
        if x.startswith(b'#~ '):
            x = x[3:]
        m = re.match(rb'(msgctxt|msgid_plural|msgid|msgstr(?:\[\d+\])?)\s+'
                     rb'"(.*)"\s*$', x)
        if m:
            field = m.group(1)
            text[field] = m.group(2)
        elif x.startswith(b'"') and field and len(x) > 1:
            text[field] += x.strip()[1:-1]
    out = set()
    if not text.get(b'msgid') and not obsolete:
        return out                   # the header
    if not any(f.startswith(b'msg') for f in text):
        return out
    if obsolete:
        out.add('obsolete')
    if fuzzy:
        out.add('fuzzy')
    if any(f.startswith(b'msgstr') and not t for f, t in text.items()):
        out.add('empty')
    return out


WORD = {'no_obsolete': 'obsolete', 'no_fuzzy': 'fuzzy',
        'no_empty_msgstr': 'empty'}
HEAD = re.compile(r'^Found (?:(\d+) (obsolete|fuzzy|empty) \w+:'
                  r'|(obsolete|fuzzy|empty) \w+ at (.+))$')


def reported(err):
    """{kind: [location]} of what a command printed on standard error."""
    out = {}
    kind, left = None, 0
    for line in err.split('\n'):
        m = HEAD.match(line)
        if m and m.group(2):
            kind, left = m.group(2), int(m.group(1))
            out.setdefault(kind, [])
        elif m:
            out.setdefault(m.group(3), []).append(m.group(4))
        elif line.strip() and left:
            out[kind].append(line.strip())
            left -= 1
    return out


def judge(call, pos, pre, post, res, what):
    a = call['args']
    r = res.results[0]
    changed = any(pre.get(p) != post.get(p) for p in set(pre) | set(post)
                  if not p.endswith('/'))
    paras = {}
    for p in pos:
        f = real(p, post)
        if post.get(f) is None:
            raise Violation('no-po', f'{what}: {p}')
        paras[p] = paragraphs(post[f])
    found = {w: any(w in k for ps in paras.values() for _, _, k in ps)
             for w in WORD.values()}
    tup = call['tool'] == 'md2po2md' and call['via'] == 'api'
    if tup:
        t = r['value']['tuple']
        if a.get('check') and bool(t[0]) != changed:
            raise Violation('check', f'{what}: reports changed={t[0]} but '
                            f'changed={changed}')
        rep = {w: t[i] for i, w in enumerate(WORD.values(), 1)}
    else:
        want = 0
        if a.get('check') and changed:
            want = 2
        for code, gate in enumerate(GATES, 3):
            if a.get(gate) and found[WORD[gate]]:
                want = code
        got = r['code']
        if got != want:
            raise Violation('status', f'{what} {opts(a)}: exit status {got}, '
                            f'not {want} (changed={changed}, {found})')
        rep = reported(r['err'])
    for gate, w in WORD.items():
        locs = rep.get(w) or []
        if not a.get(gate):
            if locs:
                raise Violation('locations', f'{what}: {w} reported, but not '
                                'asked for')
            continue
        hit = set()
        for loc in locs:
            path, _, line = loc.rpartition(':')
            if path not in paras or not line.isdigit():
                raise Violation('locations', f'{what}: {w} at {loc!r}')
            ps = [i for i, (s, e, k) in enumerate(paras[path])
                  if s <= int(line) <= e and w in k]
            if not ps:
                raise Violation('locations', f'{what}: {loc} is no line of '
                                f'an {w} entry')
            hit.add((path, ps[0]))
        for p, ps in paras.items():
            for i, (s, _, k) in enumerate(ps):
                if w in k and (p, i) not in hit:
                    raise Violation('locations', f'{what}: the {w} entry at '
                                    f'{p}:{s} is not reported')
    return r['code'] if not tup else (changed, *(bool(rep[w]) for w in rep))


def opts(a):
    return [k for k in ('check', *GATES) if a.get(k)]


def execute(ctx, sc):
    h = hi.Hist(ctx, sc)
    seen = []
    for step in sc['steps']:
        if step['op'] != 'run':
            h.human(step)
            continue
        call = step['call']
        a = call['args']
        if call['tool'] in ('md2po', 'md2po2md'):
            h.sources(call)
            pos = list(dict.fromkeys(po for _, po, _ in hi.pairs(h, call)))
        else:
            if h.state.get(a['src']) is None:
                raise Invalid('source')
            pos = po_list(call, h.state)
            if any(h.state.get(real(p, h.state)) is None for p in pos):
                continue
        if not pos and any(a.get(g) for g in GATES):
            raise Invalid('no PO files')
        pre, res, post = h.run(step)
        if not res.fired:
            expect_ok(res, call)
        if not ok(res) or call['via'] == 'api' and \
                call['tool'] != 'md2po2md' or \
                pj.is_power(step.get('plan') or ()):
            continue
        if any(f[0] == 'unlink' for f in res.fired):
            continue
        seen.append(judge(call, pos, pre, post, res,
                          f'{call["tool"]} ({call["via"]})'))
    return repr((seen, h.key)) if len(set(seen)) > 1 else None
