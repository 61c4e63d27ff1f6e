"""C05: a run that reports success has read and written everything."""

import command
import engine
import history as hi
import project as pj
from engine import Invalid, Violation, expect_ok, ok

ID = 'C05'
RULE = ('a command on a project with a past is run once without faults and '
        'then repeated from the same state: with failing operations on its '
        'inputs, outputs and standard streams, with data delivered and '
        'accepted in small pieces, and with undecodable or unparsable '
        'inputs; a run that reports success must have left the files, the '
        'printed text and the returned value of the undisturbed run, and a '
        'broken input must be reported with no file changed; non-trivial when '
        'a fault fired; distinct by command, fault places and outcomes')
COUNTS = {'quick': 2000, 'thorough': 30000}
PER = 10


def gen(rng, tier):
    sc = command.gen(rng)
    sc['env'] = pj.random_env(rng)
    if rng.random() < .5:
        sc['env']['bufsize'] = rng.choice([16, 64, 256])
    sc['fseed'] = rng.randrange(1 << 30)
    sc['n'] = PER
    sc['spoil'] = [corruption(rng, sc) for _ in range(rng.choice([1, 2]))]
    return sc


def corruption(rng, sc):
    return [rng.choice(['bytes', 'bytes', 'syntax']), rng.randrange(1000),
            rng.randrange(1000)]


def spoil(h, call, how, which, where):
    """A state in which one input of the call cannot be read as text."""
    a = call['args']
    st = dict(h.state)
    ins = []
    if call['tool'] in ('md2po', 'md2po2md'):
        ins += [(p, a.get('md_encoding') or 'utf-8', 'md')
                for p in h.sources(call)]
        pos = [a['po']] if call['tool'] == 'md2po' and a.get('po') else [
            po for p in h.sources(call)
            for _, po, _ in pj.md2po2md_files(a, p)] \
            if call['tool'] == 'md2po2md' else []
    else:
        ins.append((a['src'], (a.get('md_encoding') or 'utf-8')
                    if call['tool'] == 'po2md' else
                    a.get('html_encoding') or 'utf-8', 'md'))
        from props.c13 import po_list
        pos = po_list(call, h.state)
    ins += [(p, hi.po_enc(call), 'po') for p in pos
            if st.get(p) is not None and not st[p].startswith(b'->')]
    if a.get('ignore_msgids_file'):
        ins.append((a['ignore_msgids_file'],
                    a.get('po_encoding') or 'utf-8', 'ign'))
    if how == 'syntax':
        ins = [i for i in ins if i[2] == 'po']
    else:
        ins = [i for i in ins if i[1] == 'utf-8']
    if not ins:
        return None, None
    p, enc, kind = ins[which % len(ins)]
    b = st[p]
    if how == 'syntax':
        lines = b.split(b'\n')
        cut = [i for i, x in enumerate(lines) if not x.strip()]
        i = cut[where % len(cut)] if cut else 0
        lines[i:i] = [b'', b'this is not an entry of a message file', b'']
        st[p] = b'\n'.join(lines)
    else:
        # inside the text, never splitting a character
        t = b.decode('utf-8')
        k = where % (len(t) + 1)
        st[p] = t[:k].encode() + b'\xff\xfe\xfd' + t[k:].encode()
    return st, p


def execute(ctx, sc):
    h = command.past(ctx, sc)
    call, env, pre = sc['call'], sc['env'], h.state
    ref, rpost = ctx.run(pre, call, {})
    what = f'{call["tool"]} ({call["via"]})'
    expect_ok(ref, call)
    r0 = ref.results[0]
    if 'plans' in sc:
        todo = [(p, e) for p, e in sc['plans']]
    else:
        rng = pj.seeded('c05', sc['fseed'])
        clean, _ = ctx.run(pre, call, env)
        todo = [([], env)]
        for p in command.plans(rng, clean.log, sc.get('n', PER), 'errors'):
            e = env
            if rng.random() < .3:
                e = dict(env, chunk=rng.choice([1, 3, -1]),
                         wchunk=rng.choice([1, 5, 30]))
            todo.append((p, e))
    key = []

    def fixed(**kw):
        return dict({k: x for k, x in sc.items()
                     if k not in ('n', 'fseed', 'spoil', 'plans')}, **kw)
    for plan, e in todo:
        res, post = ctx.run(pre, call, e, plan)
        fired = [f'{f[0]}:{f[2]} {f[3]}' for f in res.fired]
        r = res.results[0]
        try:
            if res.how in ('hang', 'runaway', 'killed', 'signal'):
                raise Violation('no-end', f'{what}: {res.how} {fired}')
            if not fired or ok(res):
                say = f'{what} with {fired or e}'
                if post != rpost:
                    raise Violation('false-success' if fired else
                                    'differs', f'{say}: '
                                    f'{engine.diff_states(rpost, post)}')
                r = dict(r, out=engine.printed(r, call))
                r0 = dict(r0, out=engine.printed(r0, call))
                for f in ('how', 'code', 'out', 'value', 'exc'):
                    if r[f] != r0[f]:
                        raise Violation(
                            'false-success' if fired else 'differs',
                            f'{say}: {f} {str(r0[f])[-200:]!r} -> '
                            f'{str(r[f])[-200:]!r}')
        except Violation as v:
            v.fix = fixed(plans=[[plan, e]])
            raise
        key.append((res.fired[:1], res.how, engine.state_hash(post)))
    for how, which, where in sc.get('spoil', ()):
        st, p = spoil(h, call, how, which, where)
        if st is None:
            continue
        res, post = ctx.run(st, call, env)
        ctx.note('spoiled-inputs')
        try:
            if ok(res):
                raise Violation('unreported', f'{what}: {p} ({how}) cannot be '
                                'read, but the run reports success')
            if call['tool'] != 'md2po2md':
                a = {k: v for k, v in st.items() if v is not None}
                b = {k: v for k, v in post.items() if v is not None}
                if a != b:
                    raise Violation('changed-on-error', f'{what}: {p} cannot '
                                    f'be read: {engine.diff_states(a, b)}')
        except Violation as v:
            v.fix = fixed(plans=[], spoil=[[how, which, where]])
            raise
        key.append((how, p, res.how))
    return repr((call['args'], key)) if key else None
