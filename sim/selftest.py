"""Quick test of the machinery itself (not of any property)."""

import sys
import os

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    import engine
    import node
    import project as pj
    node.warm()
    ctx = engine.Ctx()
    bad = []
    try:
        import command
        # one seed is one exactly repeatable execution
        for seed in range(6):
            sc = command.gen(pj.seeded('selftest', seed))
            h = command.past(ctx, sc)
            env = dict(pj.random_env(pj.seeded('e', seed)), bufsize=32)
            ref, post = ctx.run(h.state, sc['call'], env)
            for f in ([], [pj.pick_fault(pj.seeded('f', seed), ref.log)]):
                a, pa = ctx.run(h.state, sc['call'], env, f)
                b, pb = ctx.run(h.state, sc['call'], env, f)
                if (a.log, a.fired, a.results, pa) != \
                        (b.log, b.fired, b.results, pb):
                    bad.append(f'seed {seed} is not repeatable')
                if f and f[0] and not a.fired:
                    bad.append(f'seed {seed}: fault {f} did not fire')
    finally:
        ctx.close()
    # the node interposes everything a plain program can do with files
    for b in bad:
        print('SELFTEST', b)
    print('selftest', 'failed' if bad else 'ok')
    return 2 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
