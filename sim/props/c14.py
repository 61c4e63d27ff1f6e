"""C14: event callbacks observe without disturbing and abort cleanly."""

import copy

import command
import engine
import history as hi
import project as pj
import tools
from engine import Invalid, Violation, expect_ok, ok

ID = 'C14'
RULE = ('a command on a project with a past runs without callbacks, with one '
        'and two observing callbacks per event (returning nothing and other '
        'false values), with the debug option under clock jumps, with a '
        'callback that raises one of 11 exceptions, an interrupt or an exit '
        'at a chosen occurrence, and with callbacks that skip commands or '
        'link references; callback order is compared with the parser run by '
        'the harness and with the model; non-trivial when callbacks were '
        'called; distinct by arguments, behaviour and contents')
COUNTS = {'quick': 2200, 'thorough': 50000}
EVENTS = ('enter_block', 'leave_block', 'enter_span', 'leave_span', 'text',
          'msgid', 'command', 'link_reference')
PARSER = EVENTS[:5]
FALSY = ('observe', 'zero', 'empty', 'emptylist', 'true', 'zerof')
EXTENSIONS = ['collapse_whitespace', 'tables', 'strikethrough', 'tasklists',
              'latex_math_spans', 'wikilinks']
RAISING = {
    'value': "ValueError('callback failed')",
    'key': "KeyError('callback failed')",
    'os': "OSError(5, 'callback failed')",
    'unicode': "UnicodeDecodeError('utf-8', b'\\xff', 0, 1, 'callback')",
    'runtime': "RuntimeError('callback failed')",
    'stop': "StopIteration('callback failed')",
    'type': "TypeError('callback failed')",
    'attr': "AttributeError('callback failed')",
    'memory': "MemoryError('callback failed')",
    'interrupt': "KeyboardInterrupt('callback failed')",
    'exit': 'SystemExit(7)',
}


def module(raising=None, nth=0, falsy='None'):
    """Source of an event module that records its calls."""
    out = ['import simtrace', '', 'N = {}', '']
    for e in EVENTS:
        out += ['', f'def {e}(self, *args):',
                f'    simtrace.T.append({e!r})',
                f'    n = N[{e!r}] = N.get({e!r}, -1) + 1']
        if raising and raising[0] == e:
            out += [f'    if n == {nth}:',
                    f'        raise {RAISING[raising[1]]}']
        out += [f'    return {falsy}', '', f'def {e}_again(self, *args):',
                f'    simtrace.T.append({e + " again"!r})', '']
    return '\n'.join(out)


def gen(rng, tier):
    wild = rng.random() < .4
    g = pj.ProjGen(rng, dangling=rng.random() < .2, wild=wild)
    for _ in range(60):
        sc = command.gen(rng, g, events=False)
        if sc['call']['tool'] in ('md2po', 'po2md') or (
                sc['call']['tool'] == 'md2po2md' and rng.random() < .1):
            break
        g = pj.ProjGen(rng, dangling=rng.random() < .2, wild=wild)
    call = sc['call']
    call['args'].pop('debug', None)
    sc['behave'] = [[rng.choice(FALSY), rng.choice(FALSY)]
                    for _ in range(3)]
    # most failures where little happens often
    sc['raise'] = [[rng.choice(EVENTS), rng.choice(list(RAISING)),
                    rng.randrange(10000), rng.choice(
                        ['api', 'api', 'cli', 'run']), rng.random() < .3]
                   for _ in range(5)]
    sc['skips'] = [[rng.choice(['command', 'link_reference']),
                    rng.randrange(1 << 6)] for _ in range(2)]
    sc['env'] = pj.random_env(rng)
    sc['env']['clock'] = rng.choice([0.0, 1.7e9, 4102444800.0])
    sc['env']['jumps'] = [[rng.randrange(60), rng.choice(
        [-86400.0, -1.0, 1e6])]]
    # names of modules of the user; also of the library, and in pairs
    sc['names'] = rng.choice([['ev.py']] * 4 + [
        ['glob.py'], ['string.py', 'lib/string.py'], ['a/b.py', 'a.b.py'],
        ['lib/ev.py', 'ev.py'], ['mdpo.py'], ['re.py', 'os.py']])
    sc['dbg'] = rng.choice(['api', 'cli', 'run'])
    return sc


def with_events(call, events, via='api', **kw):
    a = {k: v for k, v in call['args'].items()}
    if via != call['via']:
        if via == 'api':
            a.pop('quiet', None)
        elif call['via'] == 'api':
            if isinstance(a.get('pofiles'), str):
                a['pofiles'] = [a['pofiles']]
    if events:
        a['events'] = events
    a.update(kw)
    return {'tool': call['tool'], 'via': via, 'args': a}


def portable(call):
    """Whether the arguments exist both in the API and on the command line."""
    return not set(call['args']) & {'msgstr', 'ignore_msgids',
                                    'ignore_msgids_file', 'mode_api'}


def parsed(h, call):
    """Parser events of the sources, by running the parser here."""
    import md4c
    out = []
    p = md4c.GenericParser(0, **dict.fromkeys(EXTENSIONS, True))

    def rec(name):
        return lambda *a: out.append(f'{name}({tools._ev_repr(a)})')
    enc = call['args'].get('md_encoding') or 'utf-8'
    for src in (h.sources(call, False) if call['tool'] == 'md2po'
                else [call['args']['src']]):
        text = h.state[src].decode(enc).replace('\r\n', '\n')
        p.parse(text, rec('enter_block'), rec('leave_block'),
                rec('enter_span'), rec('leave_span'), rec('text'))
    return out


def same(base, bpost, res, post, call, what, out=True):
    b, r = base.results[0], res.results[0]
    for f in ('how', 'code', 'value', 'exc') + (('out',) if out else ()):
        if b[f] != r[f]:
            raise Violation('disturbed', f'{what}: {f}: {str(b[f])[-200:]!r} '
                            f'-> {str(r[f])[-200:]!r}')
    if post != bpost:
        raise Violation('disturbed', f'{what}: '
                        f'{engine.diff_states(bpost, post)}')


def observers(kinds):
    return {e: [{'kind': k, 'label': f'#{i}'} for i, k in enumerate(kinds)]
            for e in EVENTS}


def execute(ctx, sc):
    h = command.past(ctx, sc)
    pre, call, env = h.state, sc['call'], sc.get('env') or {}
    tool = call['tool']
    what = f'{tool} ({call["via"]})'
    # the debug option
    via = sc.get('dbg') or call['via']
    if not portable(call):
        via = call['via']
    c = with_events(call, None, via)
    base, bpost = ctx.run(pre, c, {})
    expect_ok(base, c)
    d = with_events(call, None, via, debug=True)
    res, post = ctx.run(pre, d, env)
    same(base, bpost, res, post, d, f'{tool} ({via}) debug', out=False)
    b, r = base.results[0]['out'], res.results[0]['out']
    if not r.endswith(b):
        raise Violation('disturbed', f'{what} debug: the output does not end '
                        f'with the one without debug: {b[-150:]!r} / '
                        f'{r[-150:]!r}')
    lines = r[:len(r) - len(b)]
    if not lines and (tool == 'po2md' or h.sources(call, False)):
        raise Violation('disturbed', f'{what} debug: nothing printed')
    if lines and (not lines.startswith(f'{tool}[DEBUG]::') and
                  tool != 'md2po2md' or not lines.endswith('\n')):
        raise Violation('disturbed', f'{what} debug: {lines[:150]!r}')
    if tool == 'md2po2md':
        return repr((tool, call['args'], engine.state_hash(bpost)))
    # observing
    api = call if call['via'] == 'api' else with_events(call, None, 'api')
    for k in ('ignore_msgids_file',):
        if api['args'].pop(k, None):
            api['args']['ignore_msgids'] = h.state['ign.txt'].decode(
                hi.po_enc(call)).splitlines()
    if tool == 'md2po' and call['via'] != 'api':
        api['args'].pop('check', None)
    base, bpost = ctx.run(pre, api, {})
    expect_ok(base, api)
    one = two = None
    kinds = [[k[0]] for k in sc.get('behave', ())[:1]] + \
        list(sc.get('behave', ()))[1:]
    for ks in kinds:
        c = with_events(api, observers(ks))
        res, post = ctx.run(pre, c, env)
        same(base, bpost, res, post, c, f'{tool} with callbacks {ks}')
        t = res.results[0]['trace']
        if len(ks) == 1:
            one = [x.replace('#0', '', 1) for x in t]
        else:
            two = t
            if len(t) % 2:
                raise Violation('calls', f'{tool}: {len(t)} calls of two '
                                'callbacks')
            for x, y in zip(t[::2], t[1::2]):
                if '#0' not in x or x.replace('#0', '#1', 1) != y:
                    raise Violation('calls', f'{tool}: {x!r} then {y!r}')
            t = [x.replace('#0', '', 1) for x in t[::2]]
            if one is not None and t != one:
                raise Violation('calls', f'{tool}: two callbacks per event '
                                'see other occurrences than one')
            one = t
    if one is None:
        one = []
        raise Invalid('no callbacks')
    seen = {e: [x for x in one if x.startswith(e + '(')] for e in EVENTS}
    got = [x for x in one if x.split('(')[0] in PARSER]
    want = parsed(h, call)
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y),
                 min(len(got), len(want)))
        raise Violation('calls', f'{tool}: parser event {i}: '
                        f'{(got[i:i + 1] or ["(none)"])[0]!r} instead of '
                        f'{(want[i:i + 1] or ["(none)"])[0]!r}')
    srcs = h.sources(call, False) if tool == 'md2po' else [
        call['args']['src']]
    model = all(p in h.docs and p not in tails(sc) for p in srcs)
    if model:
        modelled(h, call, tool, srcs, seen)
    # raising
    nontrivial = bool(one)
    for ev, exc, frac, via, keep in sc.get('raise', ()):
        n = len(seen[ev])
        if not n:
            continue
        nth = n - 1 if keep else frac % n
        if via == 'api' or not portable(call):
            via = 'api'
            evs = {ev: ['observe', {'kind': 'raise', 'nth': nth, 'exc': exc},
                        'observe']}
            c = with_events(api, evs)
            st = pre
        else:
            f = sc.get('names', ['ev.py'])[0]
            c = with_events(call, {ev: [f'{f}::{ev}']}, via)
            c['event_module'] = True
            st = dict(pre)
            put(st, f, module((ev, exc), nth))
        res, post = ctx.run(st, c, env)
        r = res.results[0]
        say = f'{tool} ({via}): {exc} raised at {ev} {nth}'
        if exc == 'exit' and via != 'api':
            if r['code'] != 7 or r['how'] != 'exit':
                raise Violation('changed-exception', f'{say}: '
                                f'{engine.brief(res)}')
        else:
            x = tools.RAISES[exc]()
            if exc == 'exit':
                e = ['SystemExit', '7']
            else:
                e = [type(x).__name__, str(x)]
            if r['how'] != 'exc' or r['exc'] != e:
                raise Violation('changed-exception', f'{say}: '
                                f'{engine.brief(res)}')
        if post != st:
            raise Violation('changed-files', f'{say}: '
                            f'{engine.diff_states(st, post)}')
    # a module of callbacks on the command line
    if portable(call) and sc.get('raise') and sc['raise'][0][2] % 3 == 0:
        for via in ('run', 'cli'):
            st = dict(pre)
            fs = sc.get('names', ['ev.py'])
            for f in fs:
                put(st, f, module(falsy='0'))
            c0 = with_events(call, None, via)
            b0, p0 = ctx.run(st, c0, {})
            # the option of an event may be repeated
            twice = sc['raise'][0][2] % 2
            c = with_events(call, {
                e: [f'{fs[i % len(fs)]}::{e}'] + (
                    [f'{fs[(i + 1) % len(fs)]}::{e}_again'] if twice else [])
                for i, e in enumerate(EVENTS)}, via)
            c['event_module'] = True
            res, post = ctx.run(st, c, env)
            same(b0, p0, res, post, c, f'{tool} ({via}) with a module')
            t = res.results[0]['trace']
            want = [x.split('(')[0] for x in one]
            if twice:
                want = [y for x in want for y in (x, x + ' again')]
            if t != want:
                raise Violation('calls', f'{tool} ({via}): the callbacks of '
                                'a module are not called as those of the API')
    # skipping
    if model and tool == 'md2po':
        for ev, bits in sc.get('skips', ()):
            skipping(ctx, h, pre, api, ev, bits, seen, srcs)
    return repr((call['args'], sc.get('raise'), engine.state_hash(bpost))) \
        if nontrivial else None


def put(state, path, text):
    state[path] = text.encode()
    if '/' in path:
        state.setdefault(path.split('/')[0] + '/', None)


def tails(sc):
    out = {p for p, s in sc['world'].items() if s.get('tail')}
    for s in sc['steps']:
        if s['op'] == 'write' and s['file'].get('tail'):
            out.add(s['path'])
        if s['op'] == 'move':
            out.add(s['to'])
    return out


def modelled(h, call, tool, srcs, seen):
    cmds = sum(len(pj.dm.commands(h.docs[p])) for p in srcs)
    if len(seen['command']) != cmds:
        raise Violation('calls', f'{tool}: {len(seen["command"])} command '
                        f'events for {cmds} commands')
    if tool != 'md2po':
        return
    inc = bool(call['args'].get('include_codeblocks'))
    ids = [m['id'] for p in srcs for m in pj.dm.Walk(h.docs[p], inc).msgs]
    got = [x for x in seen['msgid'] if not x.startswith("msgid('',")]
    if len(got) != len(ids) or any(
            not x.startswith(f'msgid({i!r},') for x, i in zip(got, ids)):
        raise Violation('calls', f'md2po: msgid events {got[:6]}... for '
                        f'messages {ids[:6]}...')


def skipping(ctx, h, pre, api, ev, bits, seen, srcs):
    """Skipped commands are as if not there; skipped references likewise."""
    n = len(seen[ev])
    at = [i for i in range(n) if bits >> (i % 6) & 1]
    if not at:
        return
    evs = {ev: [{'kind': 'skip', 'at': at}, 'observe']}
    c = with_events(api, evs)
    res, post = ctx.run(pre, c, {})
    what = f'md2po with {ev} {at} skipped'
    if len(res.results[0]['trace']) != 2 * n and ev != 'link_reference':
        raise Violation('calls', f'{what}: {len(res.results[0]["trace"])} '
                        f'calls for {n} occurrences')
    if ev == 'command':
        st = dict(pre)
        i = 0
        for p in srcs:
            d = copy.deepcopy(h.docs[p])
            for b in pj.dm.commands(d):
                if i in at:
                    b.clear()
                    b.update(k='html', s='<!-- not a command -->')
                i += 1
            st[p] = pj.file_bytes({'doc': d, 'enc': api['args'].get(
                'md_encoding') or 'utf-8'})
        res2, post2 = ctx.run(st, api, {})
        if ok(res) != ok(res2):
            raise Violation('skip', f'{what}: {engine.brief(res)}')
        if ok(res):
            x = [(e['id'], e['ctx'], e['str'], e['comment'])
                 for e in res.results[0]['value']['entries']]
            y = [(e['id'], e['ctx'], e['str'], e['comment'])
                 for e in res2.results[0]['value']['entries']]
            if x != y:
                raise Violation('skip', f'{what}: differs from the sources '
                                f'without them: {x[:4]} / {y[:4]}')
    else:
        expect_ok(res, c)
        t = res.results[0]['trace']
        if len(t) != 2 * n:
            raise Violation('calls', f'{what}: {len(t)} calls for {n}')
