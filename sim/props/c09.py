"""C09: results do not depend on the environment they run in."""

import command
import engine
import history as hi
import project as pj
from engine import Violation
from props.c13 import glossary

ID = 'C09'
RULE = ('a command on a project with a past (several PO files with '
        'conflicting translations, globs, lists, standard input) runs from '
        'the same state in 3 simulated environments that differ in hash '
        'seed, directory order, clock and its jumps, locale encoding, '
        'process number, environment variables and size of the pieces '
        'delivered; files, printed text, status, returned value and order '
        'of callbacks must be identical; non-trivial when more than one '
        'file, language, PO file or message took part; distinct by command '
        'and result')
COUNTS = {'quick': 3500, 'thorough': 60000}
ENVIRONS = [{'LANG': 'C', 'LC_ALL': 'C'}, {'LANG': 'de_DE.ISO-8859-1'},
            {'TZ': 'Asia/Tokyo', 'COLUMNS': '40'},
            {'LANGUAGE': 'fr', 'NO_COLOR': '1', 'TERM': 'dumb'},
            {'PYTHONUTF8': '0', 'CI': 'true', 'HOME': '/nonexistent'}]


def environment(rng):
    e = pj.random_env(rng)
    e['dirorder'] = rng.choice([0, 'rev', 1, 2, 3, 4, 5])
    e['locale'] = rng.choice(['utf-8', 'iso-8859-1', 'ascii', 'cp1252'])
    e['clock'] = rng.choice([0.0, 951827696.0, 1709164800.0, 4102444800.0])
    e['clock_step'] = rng.choice([0, .001, 3600.0])
    if rng.random() < .5:
        e['jumps'] = [[rng.randrange(40), rng.choice(
            [-1e9, -86400.0, -1.5, 1e6])] for _ in range(2)]
    e['environ'] = rng.choice(ENVIRONS)
    return e


def gen(rng, tier):
    g = pj.ProjGen(rng, dangling=rng.random() < .1, wild=rng.random() < .3)
    sc = command.gen(rng, g)
    call = sc['call']
    a = call['args']
    r = rng.random()
    if call['tool'] in ('po2md', 'mdpo2html') and r < .7:
        # several PO files that say different things
        for _ in range(rng.choice([1, 2, 3])):
            gl = glossary(rng, g)
            sc['steps'].append(gl)
            if rng.random() < .5:
                sc['steps'].append(dict(gl, path='locale/mm.po'))
                sc['steps'].append(dict(g.translation('locale/mm.po', .9)))
        a['pofiles'] = rng.choice([
            ['locale/*.po'], ['locale/*.po'], ['locale/[a-m]*.po',
                                               'locale/*.po'],
            ['locale/zz.po', 'locale/*.po'], ['locale/*']])
        if rng.random() < .2:
            a['ignore'] = [rng.choice(['aa.po', 'locale/zz.po'])]
    if call['tool'] == 'md2po' and r < .2:
        a['metadata'] = {f'X-{w}': w for w in 'one two three four'.split()}
    if call['tool'] == 'md2po2md' and r < .4:
        a['langs'] = rng.sample(pj.LANGS, 4)
        for gate in ('no_obsolete', 'no_fuzzy', 'no_empty_msgstr'):
            if rng.random() < .6:
                a[gate] = True
    elif call['tool'] != 'md2po2md' and call['via'] != 'api' and r < .5:
        for gate in ('no_obsolete', 'no_fuzzy', 'no_empty_msgstr'):
            if rng.random() < .4:
                a[gate] = True
    if call['tool'] in ('md2po', 'po2md') and call['via'] == 'api' and \
            'events' not in a and rng.random() < .5:
        a['events'] = {e: ['observe'] for e in (
            'enter_block', 'leave_block', 'enter_span', 'text', 'msgid',
            'command', 'link_reference')
            if call['tool'] == 'md2po' or e in ('text', 'msgid')}
    if call['tool'] == 'md2po' and rng.random() < .15:
        # globs in a list, in an order of their own
        a['src'] = rng.choice([['docs/*.md', 'README.md'],
                               ['docs/[a-z]*.md', 'docs/*.md'],
                               '[dg]*/*.md', '*/[a9].md',
                               ['docs/*/*.md', 'docs/*.md']])
        if rng.random() < .5:
            a['ignore'] = [rng.choice(['b.md', 'docs/9.md', 'sub'])]
    elif call['tool'] == 'md2po' and rng.random() < .15:
        # files with the same name in several directories
        n = rng.choice(['a', 'v1.0', 'B'])
        for d in rng.sample(['docs', 'guide', 'notes', 'docs/sub', 'old'],
                            rng.choice([2, 3, 4])):
            sc['steps'].append({'op': 'write', 'path': f'{d}/{n}.md', 'file': {
                'doc': g.newdoc(), 'enc': g.enc}})
        a['src'] = rng.choice([f'*/{n}.md', [f'*/{n}.md', f'docs/*/{n}.md'],
                               [f'[n-z]*/{n}.md', f'*/{n}.md']])
    if call['via'] != 'api' and call['tool'] in ('md2po', 'po2md') and \
            rng.random() < .12:
        p = rng.choice(g.paths)
        call['stdin'] = pj.file_bytes(dict(g.spec(p), enc='utf-8')).decode()
        a['src'] = []
    sc['envs'] = [environment(rng) for _ in range(2)]
    sc['seeds'] = rng.sample([1, 77], 1) if rng.random() < .5 else []
    return sc


def execute(ctx, sc):
    h = command.past(ctx, sc)
    pre, call = h.state, sc['call']
    what = f'{call["tool"]} ({call["via"]})'
    base, bpost = ctx.run(pre, call, {'dirorder': 0})
    b = base.results[0]
    ctx.note('ended-' + ('ok' if engine.ok(base) else b['how'] +
                         str(b['exc'])[:120] + str(b['code'])))
    todo = [(e, None) for e in sc['envs']] + \
        [(sc['envs'][0] if sc['envs'] else {}, s)
         for s in sc.get('seeds') or ()]
    for env, seed in todo:
        c = dict(call)
        if 'stdin' in c:
            c['chunk'] = env.get('chunk') if (env.get('chunk') or 0) > 0 \
                else 5
        res, post = ctx.run(pre, c, env, companion=seed)
        r = res.results[0]
        say = f'{what} in {env}' + (f' hash seed {seed}' if seed else '')
        if seed:
            ctx.note('other-hash-seed')
        for f in ('how', 'code', 'value', 'exc', 'trace', 'err'):
            if r[f] != b[f]:
                raise Violation('differs', f'{say}: {f}: '
                                f'{clip(b[f], r[f])}')
        if engine.printed(r, call) != engine.printed(b, call):
            raise Violation('differs', f'{say}: printed '
                            f'{clip(b["out"], r["out"])}')
        if post != bpost:
            raise Violation('differs', f'{say}: '
                            f'{engine.diff_states(bpost, post)}')
    if bpost == pre and not b['out'] and not b['value']:
        return None
    return repr((call['args'], engine.state_hash(bpost), b['out'][:200]))


def clip(x, y):
    x, y = repr(x), repr(y)
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q),
             min(len(x), len(y)))
    i = max(0, i - 60)
    return f'...{x[i:i + 160]} / ...{y[i:i + 160]}'
