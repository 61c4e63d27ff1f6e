"""A second interpreter, with another hash seed, that runs nodes on request."""

import os
import pickle
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(len(b).to_bytes(8, 'big') + b)
    f.flush()


def _recv(f):
    n = f.read(8)
    if len(n) < 8:
        return None
    return pickle.loads(f.read(int.from_bytes(n, 'big')))


class Companion:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen(
            [sys.executable, '-u', os.path.abspath(__file__)], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def run(self, world, prog, env, plan):
        import node
        _send(self.p.stdin, (world, prog, env, list(plan)))
        r = _recv(self.p.stdout)
        if r is None or isinstance(r, str):
            raise node.HarnessError(f'companion: {r}')
        return node.Result(r)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def main():
    sys.path.insert(0, HERE)
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    import node
    node.warm()
    inp = sys.stdin.buffer
    while True:
        m = _recv(inp)
        if m is None:
            break
        try:
            r = node.run(*m)
            d = dict(r.__dict__)
            d.pop('first', None)
            _send(out, d)
        except Exception as e:  # noqa: BLE001
            import traceback
            _send(out, traceback.format_exc() + str(e))


if __name__ == '__main__':
    main()
