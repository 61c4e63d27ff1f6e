"""C15: PO file, MO file, printed text and returned catalogue agree."""

import copy
import struct

import command
import engine
import history as hi
import project as pj
from engine import Invalid, Violation, expect_ok, ok
from props.c12 import real

ID = 'C15'
RULE = ('a command on a project with a past runs from the same state through '
        'the API, the entry point and the command line, with and without '
        'saving, checking and MO output, under different piece sizes; '
        'returned catalogue, printed text, PO, MO, Markdown and HTML files '
        'must agree with each other and between variants; non-trivial when '
        'the PO held translations or a document was produced; distinct by '
        'arguments and contents')
COUNTS = {'quick': 3000, 'thorough': 40000}


def gen(rng, tier):
    for _ in range(50):
        sc = command.gen(rng, events=False)
        if sc['call']['tool'] != 'md2po2md' or rng.random() < .3:
            break
    a = sc['call']['args']
    a.pop('debug', None)
    if sc['call']['tool'] == 'md2po':
        a.pop('msgstr', None)
        a['save'] = True
        a['po'] = a.get('po') or 'locale/es.po'
        if rng.random() < .8:
            a['mo'] = 'locale/es.mo'
    sc['envs'] = [pj.random_env(rng) for _ in range(6)]
    if rng.random() < .4:
        sc['attempt'] = {'plan': [pj.blind_fault(rng)], 'env': dict(
            pj.random_env(rng), power_seed=rng.randrange(1 << 20))}
    sc['nudge'] = rng.choice([None, None, 'nl', 'strip', 'space',
                              'crlf', 'cr', 'bytes'])
    return sc


def nudged(data, how):
    """An output as an editor or formatter could have left it."""
    if how == 'nl':
        return data + b'\n'
    if how == 'strip':
        return data.rstrip(b'\n')
    if how in ('crlf', 'cr'):       # saved by an editor of other system
        return data.replace(b'\n', b'\r\n' if how == 'crlf' else b'\r')
    if how == 'bytes':              # not text at all
        return data[:-1] + b'\xff\xfe\x81'
    return data.replace(b' ', b'  ', 1)


def variants(sc):
    """Equivalent calls: (label, call, saves)."""
    call = sc['call']
    a0 = call['args']
    base = {k: v for k, v in a0.items() if k not in (
        'check', 'quiet', 'ignore_msgids', 'ignore_msgids_file')}
    ids = ids_of(sc)
    out = []
    for via in ('api', 'cli', 'run'):
        for check in (False, True):
            a = copy.deepcopy(base)
            if check:
                a['check'] = True
            if ids is not None and call['tool'] == 'md2po':
                if via == 'api':
                    a['ignore_msgids'] = ids
                else:
                    a['ignore_msgids_file'] = 'ign.txt'
            if via != 'api' and isinstance(a.get('pofiles'), str):
                a['pofiles'] = [a['pofiles']]
            out.append((f'{via}{"+check" if check else ""}',
                        {'tool': call['tool'], 'via': via, 'args': a,
                         **({'enc': call['enc']} if 'enc' in call else {})}))
    # without saving
    if call['tool'] in ('po2md', 'mdpo2html', 'md2po'):
        for via in ('api', 'cli'):
            c = copy.deepcopy(next(c for n, c in out if n == via))
            if call['tool'] == 'md2po':
                c['args'].pop('save', None)
                c['args'].pop('mo', None)
            else:
                c['args'].pop('save', None)
            out.append((f'{via} unsaved', c))
    return out


def given(sc, pre):
    """Calls that are given the text of the only source, not its path."""
    call = sc['call']
    a = call['args']
    src = a.get('src')
    if isinstance(src, list) and len(src) == 1:
        src = src[0]
    if call['tool'] == 'md2po2md' or not isinstance(src, str) or \
            pre.get(src) is None or call.get('cwd'):
        return []
    enc = a.get('html_encoding' if call['tool'] == 'mdpo2html'
                else 'md_encoding') or 'utf-8'
    try:
        text = pre[src].decode(enc)
    except UnicodeDecodeError:
        return []
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    if '\n' not in text.strip():
        return []       # could be the name of a file or a glob
    out = []
    for name, c in variants(sc):
        c = copy.deepcopy(c)
        if name == 'api':
            c['args']['src'] = text
            out.append(('api text', c))
        elif name == 'cli':
            c['args'].pop('src')
            c['stdin'] = text
            out.append(('cli stdin', c))
    return out


def places_off(text):
    """A catalogue without references, which texts do not have."""
    return '\n'.join(x for x in text.split('\n') if not x.startswith('#: '))


def ids_of(sc):
    w = sc['world'].get('ign.txt')
    a = sc['call']['args']
    if w is None or not ('ignore_msgids' in a or 'ignore_msgids_file' in a):
        return None
    return w['text'].splitlines()


def catalogue(data, enc):
    """Messages of MO bytes, read as gettext does."""
    magic, _, n, o, t = struct.unpack('<5I', data[:20])
    if magic != 0x950412de:
        raise ValueError('no magic number')
    out = {}
    for i in range(n):
        kl, ko = struct.unpack('<2I', data[o + 8 * i:o + 8 * i + 8])
        vl, vo = struct.unpack('<2I', data[t + 8 * i:t + 8 * i + 8])
        if ko + kl >= len(data) or vo + vl >= len(data) or \
                data[ko + kl] or data[vo + vl]:
            raise ValueError('string outside of the file')
        k, v = data[ko:ko + kl].decode(enc), data[vo:vo + vl].decode(enc)
        if k == '':
            continue
        if '\0' in k:
            for j, x in enumerate(v.split('\0')):
                out[k.split('\0')[0], j] = x
        else:
            out[k] = v
    return out


def expected_mo(entries):
    out = {}
    for e in entries:
        if e['obsolete'] or e['fuzzy']:
            continue
        k = e['id'] if not e['ctx'] else f'{e["ctx"]}\x04{e["id"]}'
        if e['plurals'] is not None:
            if all(e['plurals'].values()):
                for n, v in e['plurals'].items():
                    out[k, int(n)] = v
        elif e['str']:
            out[k] = e['str']
    return out


FIELDS = (('id', 'id'), ('ctx', 'ctx'), ('str', 'str'),
          ('obsolete', 'obsolete'))


def execute(ctx, sc):
    h = command.past(ctx, sc)
    pre = h.state
    tool = sc['call']['tool']
    a = sc['call']['args']
    if tool == 'md2po' and not (a.get('save') and a.get('po')):
        raise Invalid('saves nothing')
    texts, states = [], []
    nontrivial = tool != 'md2po'
    if sc.get('attempt'):
        # a failed or killed attempt before
        _, pre = ctx.run(pre, variants(sc)[0][1], sc['attempt'].get('env'),
                         sc['attempt'].get('plan') or ())
    if sc.get('nudge'):
        # the right outputs are there, with little changes
        res, post = ctx.run(pre, variants(sc)[0][1], {})
        expect_ok(res, sc['call'])
        pre = {p: nudged(d, sc['nudge'])
               if d and pre.get(p) != d and (
                   not p.endswith('.po') or sc['nudge'] == 'crlf') and
               not d.startswith((b'->', b'\xff\xfe')) else d for p, d in post.items()}
    for i, (name, call) in enumerate(variants(sc)):
        env = sc['envs'][i % len(sc['envs'])] if sc['envs'] else {}
        res, post = ctx.run(pre, call, env)
        expect_ok(res, call, name)
        r = res.results[0]
        what = f'{tool} {name}'
        unsaved = 'unsaved' in name
        if unsaved:
            if post != pre:
                raise Violation('unasked-output', f'{what}: '
                                f'{engine.diff_states(pre, post)}')
        else:
            states.append((name, post))
        text = None
        if tool == 'md2po2md':
            if call['via'] != 'api' and r['out']:
                raise Violation('printed', f'{what} prints {r["out"][:80]!r}')
            continue
        saved = None
        if not unsaved:
            p = real(a['po'], post) if tool == 'md2po' else a.get('save')
            if p is not None:
                if post.get(p) is None:
                    raise Violation('no-output', f'{what}: {p}')
                enc = hi.po_enc(call) if tool == 'md2po' else enc_of(call)
                try:
                    saved = post[p].decode(enc)
                except UnicodeDecodeError as e:
                    raise Violation('encoding', f'{what}: {p}: {e}') from None
        if call['via'] == 'api':
            text = r['value']['text']
        else:
            printed = tool == 'md2po' or not call['args'].get('save')
            if not printed:
                if r['out']:
                    raise Violation('printed', f'{what} prints '
                                    f'{r["out"][:80]!r}')
            else:
                if not r['out'].endswith('\n'):
                    raise Violation('printed', f'{what}: no end of line')
                text = r['out'][:-1]
            if call['via'] == 'run' and r['value'] is not None:
                t = r['value']['text']
                if text is not None and t != text:
                    raise Violation('disagree', f'{what}: printed and '
                                    'returned text differ')
                text = t
        if text is not None and saved is not None and text != saved:
            raise Violation('disagree', f'{what}: file has {saved[-150:]!r}, '
                            f'returned {text[-150:]!r}')
        if text is not None:
            texts.append((name, text))
        if saved is not None:
            texts.append((name + ' file', saved))
        if tool == 'md2po' and not unsaved:
            p = real(a['po'], post)
            es, head = hi.load_po(post, p, hi.po_enc(call), what)
            if any(e['str'] for e in es):
                nontrivial = True
            if call['via'] == 'api':
                mem = r['value']['entries']
                mem = [e for e in mem if not e['obsolete']] + \
                    [e for e in mem if e['obsolete']]
                if len(mem) != len(es):
                    raise Violation('disagree', f'{what}: {len(mem)} entries '
                                    f'returned, {len(es)} in the file')
                for m, e in zip(mem, es):
                    for x, y in FIELDS:
                        if (m[x] or None) != (e[y] or None):
                            raise Violation(
                                'disagree', f'{what}: entry {e["key"]!r}: '
                                f'{x} {m[x]!r} returned, {e[y]!r} in file')
                    if sorted(m['flags']) != e['flags'] or \
                            ' '.join(m['tcomment'].split()) != e['tc'] or \
                            not e['obsolete'] and \
                            ' '.join(m['comment'].split()) != e['c']:
                        raise Violation('disagree', f'{what}: entry '
                                        f'{e["key"]!r}: comments or flags')
                    if not e['obsolete'] and \
                            sorted(' '.join(':'.join(o).split())
                                   for o in m['occ']) != \
                            sorted(' '.join(':'.join(o).split())
                                   for o in e['occ']) and \
                            occ_text(m['occ']) != occ_text(e['occ']):
                        raise Violation('disagree', f'{what}: entry '
                                        f'{e["key"]!r}: references')
                if r['value']['metadata'] != head:
                    raise Violation('disagree', f'{what}: header '
                                    f'{r["value"]["metadata"]} / {head}')
            if a.get('mo'):
                if post.get(a['mo']) is None:
                    raise Violation('no-output', f'{what}: {a["mo"]}')
                try:
                    got = catalogue(post[a['mo']], hi.po_enc(call))
                except (UnicodeError, ValueError, struct.error,
                        IndexError) as e:
                    raise Violation('mo-file', f'{what}: {e}') from None
                want = expected_mo(es)
                if got != want:
                    d = [k for k in set(got) | set(want)
                         if got.get(k) != want.get(k)]
                    raise Violation('mo-file', f'{what}: {d[0]!r} is '
                                    f'{got.get(d[0])!r}, not '
                                    f'{want.get(d[0])!r}')
    for name, call in given(sc, pre):
        res, post = ctx.run(pre, call, sc['envs'][0] if sc['envs'] else {})
        expect_ok(res, call, name)
        p = real(a['po'], post) if tool == 'md2po' else a.get('save')
        if p is None:
            continue
        if post.get(p) is None:
            raise Violation('no-output', f'{tool} {name}: {p}')
        enc = hi.po_enc(call) if tool == 'md2po' else enc_of(call)
        one, two = (places_off(x[p].decode(enc)).strip('\n')
                    for x in (post, states[0][1]))
        if one != two:
            raise Violation('variants', f'{tool}: given a path {p} is '
                            f'{two[-150:]!r}, {name} {one[-150:]!r}')
    for name, t in texts[1:]:
        if t != texts[0][1]:
            raise Violation('variants', f'{tool}: {texts[0][0]} gives '
                            f'{texts[0][1][-150:]!r}, {name} {t[-150:]!r}')
    for name, s in states[1:]:
        if s != states[0][1]:
            raise Violation('variants', f'{tool}: {states[0][0]} and {name}: '
                            f'{engine.diff_states(states[0][1], s)}')
    return repr((a, engine.state_hash(states[0][1]))) if nontrivial else None


def enc_of(call):
    a = call['args']
    return a.get('md_encoding' if call['tool'] == 'po2md'
                 else 'html_encoding') or 'utf-8'


def occ_text(occ):
    """References as text: polib splits them at blanks when reading."""
    return ''.join(''.join(o) for o in occ).replace(' ', '').replace(
        ':', '')
