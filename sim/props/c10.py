"""C10: runs in one process leave no residue, even when they fail."""

import re

import engine
import history as hi
import project as pj
import tools
from engine import Invalid, Violation
from props.c13 import glossary

ID = 'C10'
RULE = ('3-7 calls of the four tools, through the API and the command line '
        'entry points, run one after another in one process with author and '
        'translator edits between them; some fail by I/O errors and '
        'interrupts at any operation, by wrong arguments, bad sources, '
        'raising callbacks and event modules that cannot be loaded; each '
        'call must end, print, return, call back and write as in a fresh '
        'process started on the same files with the same fault, and after '
        'each the process state and the arguments must be as before; '
        'non-trivial when a call failed before another; distinct by calls, '
        'outcomes and contents')
COUNTS = {'quick': 2200, 'thorough': 40000}
BADMOD = ('import os\nREADY = os.path.exists("flag.txt")\n'
          'def early(self, *args):\n    return None\n'
          'if not READY:\n    raise {exc}\n'
          'def text(self, *args):\n    return None\n'
          'def msgid(self, *args):\n    return None\n')
GOODMOD = ('import simtrace\n'
           'def text(self, *args):\n    simtrace.T.append("text")\n'
           'def msgid(self, *args):\n    simtrace.T.append("msgid")\n'
           'def fail(self, *args):\n    raise {exc}\n'
           'class C:\n    def text(self, *args):\n'
           '        simtrace.T.append("C.text")\n')
EXCS = ['ValueError("x")', 'KeyError("x")', 'KeyboardInterrupt()',
        'SystemExit(9)', 'OSError(5, "x")', 'MemoryError()']


def one(rng, g, ids):
    p = rng.choice(g.paths)
    r = rng.random()
    pos = rng.choice([['locale/es.po'], ['locale/*.po'],
                      ['locale/zz.po', 'locale/es.po']])
    if r < .35:
        c = hi.extract_call(rng, g, ids, po='locale/es.po',
                            mode=rng.choice(['mark', 'mark', 'merge']))
        if rng.random() < .2:
            c['args'].pop('save')
            c['args'].pop('mo', None)
            c['args'].pop('check', None)
            if rng.random() < .5:
                c['args'].pop('po')
        if rng.random() < .15:
            c['args']['plaintext'] = True
    elif r < .6:
        c = g.po2md(p, pos, rng.choice([None, 'out/x.md']))
    elif r < .75:
        c = g.html('docs/in.html', pos, rng.choice([None, 'out/x.html']))
    else:
        c = g.md2po2md()
        if rng.random() < .3 and c['via'] != 'api':
            c['args'][rng.choice(['no_obsolete', 'no_fuzzy',
                                  'no_empty_msgstr'])] = True
    a = c['args']
    if c['tool'] in ('md2po', 'po2md') and rng.random() < .2:
        a['debug'] = True
    if c['tool'] in ('md2po', 'po2md') and rng.random() < .3:
        c['event_module'] = True
        a['events'] = rng.choice([
            {'text': ['ev.py::text']}, {'msgid': ['ev.py::msgid',
                                                  'ev.py::msgid']},
            {'text': ['ev.py::C.text'], 'msgid': ['ev.py::msgid']},
            {'text': ['ev.py::fail']}, {'command': ['ev.py::fail']},
            {'msgid': ['bad.py::msgid']}, {'text': ['bad.py::early']},
            {'text': ['ev.py::absent']}, {'text': ['none.py::text']},
            {'text': ['./ev.py::text']}])
    elif c['tool'] in ('md2po', 'po2md') and c['via'] == 'api' and \
            rng.random() < .25:
        a['events'] = rng.choice([
            {'text': ['observe']}, {'msgid': ['observe', 'zero']},
            {'command': ['observe'], 'enter_block': []}])
    if rng.random() < .12:
        wrong(rng, c)
    if c['via'] == 'api':
        if rng.random() < .15:
            a['kw'] = pj.extra_kwargs(rng, c['tool'])
        if c['tool'] in ('md2po', 'md2po2md', 'po2md') and \
                rng.random() < .4:
            c['share'] = {}
            if 'aliases' in a:
                c['share']['aliases'] = 'aliases'
            if rng.random() < .5:
                a['extensions'] = ['tables', 'wikilinks', 'latex_math_spans']
                c['share']['extensions'] = 'ext'
            if c['tool'] == 'md2po':
                if rng.random() < .5:
                    a['metadata'] = {'X-Shared': 'yes'}
                    c['share']['metadata'] = 'meta'
                if ids:
                    c['share']['ignore_msgids'] = 'ids'
                if rng.random() < .5:
                    a['ignore'] = ['never.md']
                    c['share']['ignore'] = 'ignore'
    elif c['tool'] in ('md2po', 'po2md') and rng.random() < .08:
        c['stdin'] = 'From *standard* input\n\n- a\n- b\n'
        a['src'] = []
    return c


def wrong(rng, c):
    a = c['args']
    k = rng.randrange(8)
    if k == 0:
        a['src'] = 'docs/absent.md'
    elif k == 1:
        a['wrapwidth'] = a['po_wrapwidth'] = 'wide'
    elif k == 2:
        a['aliases'] = {'on': 'nothing-known'}
    elif k == 3 and c['tool'] == 'md2po':
        a['save'] = True
        a.pop('po', None)
    elif k == 4:
        a['po_encoding'] = 'no-such-encoding'
    elif k == 5:
        a['src'] = 'docs/badcmd.md'
    elif k == 6 and c['tool'] == 'md2po2md':
        a['schema'] = 'locale/xx'
    elif k == 7:
        a['src'] = 'docs/latin.md'
        a.pop('md_encoding', None)
    c['args'].pop('extensions', None)


def other_project(rng, g, world):
    """One with the same names in other directory."""
    docs = g.docs
    g.docs = {p: g.newdoc() for p in docs}
    new = {p: {'doc': d, 'enc': g.enc} for p, d in g.docs.items()}
    new['docs/in.html'] = g.published(g.docs[g.paths[0]])
    for p in ('locale/zz.po', 'locale/es.po'):
        new[p] = glossary(rng, g)['file']
    new['ev.py'] = {'text': world['ev.py']['text'].replace(
        'append("', 'append("sub ')}
    new['out/kept.txt'] = {'text': ''}
    new['bad.py'] = {'text': BADMOD.format(exc=rng.choice(EXCS))}
    if 'ign.txt' in world:
        new['ign.txt'] = {'text': '', 'enc': g.po_enc or 'utf-8'}
    world.update({'sub/' + p: f for p, f in new.items()})
    g.docs = docs


def gen(rng, tier):
    g = pj.ProjGen(rng, dangling=rng.random() < .3, wild=rng.random() < .4)
    world = g.world()
    ids = hi.ignore_setup(rng, g, world)
    world['docs/in.html'] = g.published(g.docs[g.paths[0]])
    gl = glossary(rng, g)
    world['locale/zz.po'] = gl['file']
    gl = glossary(rng, g)
    world['locale/es.po'] = gl['file']
    world['ev.py'] = {'text': GOODMOD.format(exc=rng.choice(EXCS))}
    world['bad.py'] = {'text': BADMOD.format(exc=rng.choice(EXCS))}
    world['docs/badcmd.txt'] = {'text': 'x'}
    world['docs/badcmd.md'] = {'text': 'a\n\n<!-- mdpo-context -->\n\nb\n'}
    world['docs/latin.md'] = {'hex': b'caf\xe9 con leche\n'.hex()}
    other = rng.random() < .3
    if other:
        other_project(rng, g, world)
    calls = []
    flag = False
    for i in range(rng.choice([3, 4, 5, 6, 7])):
        if calls and rng.random() < .2:
            c = dict(rng.choice(calls)['call'])       # the same once more
        else:
            c = one(rng, g, ids)
            if other and rng.random() < .45:
                c['cwd'] = 'sub'
        before = []
        if i and rng.random() < .4:
            before.append(g.edit())
        if i and rng.random() < .4:
            before.append(g.translation('locale/es.po', .8))
        if not flag and rng.random() < .2:
            flag = True
            before.append({'op': 'write', 'path': 'flag.txt',
                           'file': {'text': 'ready'}})
        item = {'call': c, 'before': before}
        if rng.random() < .35:
            item['fault'] = rng.randrange(1 << 30)
        calls.append(item)
    env = pj.random_env(rng)
    for k in ('chunk', 'wchunk', 'bufsize'):
        env.pop(k, None)
    return {'world': world, 'calls': calls, 'env': env}


WARNING = re.compile(r'^.*Warning: .*\n(?:  .*\n)?', re.M)
FIELDS = ('how', 'code', 'value', 'exc', 'trace', 'err')


def execute(ctx, sc):
    state = pj.build(sc['world'])
    env = sc.get('env') or {}
    seq, plan, fresh, states = [], [], [], []
    failed = 0
    for i, item in enumerate(sc['calls']):
        call = item['call']
        before = []
        pre0 = dict(state)
        for s in item.get('before') or ():
            if s['op'] == 'write' and 'doc' in s['file'] and \
                    not pj.dm.valid(s['file']['doc']):
                raise Invalid('document')
            pj.apply(state, s)
        for p, b in state.items():
            if pre0.get(p, 0) != b and b is not None:
                before.append({'op': 'write', 'path': p, 'hex': b.hex()})
        faults = []
        # (a loaded module is not read again)
        if item.get('fault') is not None and 'events' not in call['args']:
            rng = pj.seeded('c10', item['fault'])
            res, _ = ctx.run(state, call, dict(env, rng=env.get('rng', 0) + i))
            f = pj.pick_fault(rng, res.log, 'failures')
            if f and 'arg' not in f:
                faults = [f]
        # no two processes get the same random numbers
        res, post = ctx.run(state, call, dict(
            env, rng=env.get('rng', 0) + i), faults)
        if res.how in ('killed', 'power', 'hang', 'runaway', 'signal'):
            raise Invalid('process ended')
        if not engine.ok(res):
            failed += 1
        fresh.append(res)
        state = post
        states.append(dict(post))
        seq.append(dict(call, before=before))
        plan += [dict(f, call=i) for f in faults]
    start = pj.build(sc['world'])
    res, post = ctx.run(start, {'kind': 'sequence', 'calls': seq}, env, plan)
    if len(res.results) != len(seq):
        raise Violation('process-ended', f'after {len(res.results)} calls: '
                        f'{engine.brief(res)}')
    for i, (r, f) in enumerate(zip(res.results, fresh)):
        call = sc['calls'][i]['call']
        what = f'call {i}: {call["tool"]} ({call["via"]})'
        past = [f'{c["call"]["tool"]} {x["how"]}' for c, x in
                zip(sc['calls'][:i], res.results)]
        b = f.results[0]
        # Python shows a warning only once in a process
        r, b = (dict(x, err=WARNING.sub('', x['err'])) for x in (r, b))
        for k in FIELDS:
            if r[k] != b[k]:
                raise Violation('residue', f'{what} after {past}: {k}: fresh '
                                f'{str(b[k])[-200:]!r}, here '
                                f'{str(r[k])[-200:]!r}')
        if engine.printed(r, call) != engine.printed(b, call):
            raise Violation('residue', f'{what} after {past}: prints '
                            f'{r["out"][-200:]!r}, fresh {b["out"][-200:]!r}')
        if named(r['state']) != named(states[i]):
            raise Violation('residue', f'{what} after {past}: '
                            f'{engine.diff_states(states[i], r["state"])}')
        if r['residue']:
            raise Violation('process-state', f'{what} ({b["how"]} '
                            f'{b["exc"]}): {r["residue"]}')
    return repr([(c['call']['args'], r['how']) for c, r in zip(
        sc['calls'], res.results)]) if failed else None


def named(state):
    return {p: b for p, b in state.items() if not p.endswith('.tmp')}
