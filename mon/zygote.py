"""A process that has run nothing yet; every request runs in a fork of it."""
import os
import pickle
import struct
import subprocess
import sys


class Zygote:
    def __init__(self, seed):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, '-m', 'mon.zygote'], cwd=here, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=dict(os.environ, PYTHONHASHSEED=str(seed)))

    def ask(self, request):
        """result of mon.history.serve(request) in a fork"""
        b = pickle.dumps(request)
        self.p.stdin.write(struct.pack('>Q', len(b)) + b)
        self.p.stdin.flush()
        n = struct.unpack('>Q', self.p.stdout.read(8))[0]
        if n == 0:
            raise RuntimeError('the process ended without an answer')
        return pickle.loads(self.p.stdout.read(n))

    def close(self):
        self.p.stdin.close()
        self.p.kill()
        self.p.wait()


def read(f, n):
    out = b''
    while len(out) < n:
        x = f.read(n - len(out))
        if not x:
            return None
        out += x
    return out


def main():
    from . import history
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except ValueError:
        pass  # there is a lower one already
    inp, out = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = read(inp, 8)
        if h is None:
            return
        body = read(inp, struct.unpack('>Q', h)[0])
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                b = pickle.dumps(history.serve(pickle.loads(body)))
                with os.fdopen(w, 'wb') as f:
                    f.write(struct.pack('>Q', len(b)) + b)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            b = f.read()
        os.waitpid(pid, 0)
        if len(b) < 8 or len(b) != 8 + struct.unpack('>Q', b[:8])[0]:
            b = struct.pack('>Q', 0)
        out.write(b)
        out.flush()


if __name__ == '__main__':
    main()
