"""One worker interpreter: executes scenarios of one property on request.

Protocol: one JSON object per line on stdin, one per line on stdout.
"""

import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    os.dup2(2, 1)
    import node
    node.warm()
    import engine
    import project
    prop = importlib.import_module(f'props.{sys.argv[1].lower()}')
    ctx = engine.Ctx()
    mono = engine._mono

    def reply(obj):
        out.write(json.dumps(obj) + '\n')
        out.flush()

    def attempt(sc):
        try:
            key = prop.execute(ctx, sc)
            return None, key
        except engine.Violation as v:
            return v, None
        except engine.Invalid:
            ctx.note('invalid')
            return None, None

    try:
        for line in sys.stdin:
            req = json.loads(line)
            try:
                if req['do'] == 'seeds':
                    ctx.reset()
                    keys, viol, n, samples = [], None, 0, []
                    for i in range(req['from'], req['to']):
                        if time.time() > req['until']:
                            break
                        rng = project.seeded(req['seed'], prop.ID, i)
                        sc = prop.gen(rng, req['tier'])
                        sc = json.loads(json.dumps(sc))
                        n += 1
                        v, key = attempt(sc)
                        if v is not None:
                            sc = v.fix or sc
                            viol = {'index': i, 'cls': v.cls, 'msg': v.msg,
                                    'scenario': sc}
                            break
                        if key is not None:
                            keys.append(key)
                        if i < 3:
                            samples.append(prop.sample(sc) if hasattr(
                                prop, 'sample') else json.dumps(sc)[:600])
                    s = ctx.stats
                    reply({'n': n, 'keys': keys, 'violation': viol,
                           'samples': samples, 'stats': dict(
                               s, hashes=sorted(s['hashes']),
                               states=sorted(s['states']))})
                elif req['do'] == 'try':
                    v, key = attempt(req['scenario'])
                    reply({'violation': None if v is None else
                           {'cls': v.cls, 'msg': v.msg, 'fix': v.fix}})
                elif req['do'] == 'shrink':
                    cls = req['cls']

                    def test(c):
                        if hasattr(prop, 'valid') and not prop.valid(c):
                            return False
                        v, _ = attempt(c)
                        return v is not None and v.cls == cls
                    best, tries = engine.shrink(
                        req['scenario'], test, req['budget'],
                        mono() + req['seconds'])
                    reply({'scenario': best, 'tries': tries})
            except node.HarnessError as e:
                reply({'harness': str(e)})
            except Exception:  # noqa: BLE001
                reply({'harness': traceback.format_exc()})
    finally:
        ctx.close()


if __name__ == '__main__':
    main()
