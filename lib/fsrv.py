"""Client for the fork server (fs.cc)."""
import os, struct, subprocess
from collections import namedtuple

Res = namedtuple('Res', 'status out err')


def describe(status):
    if os.WIFSIGNALED(status):
        return 'killed by signal %d' % os.WTERMSIG(status)
    return 'exit %d' % os.WEXITSTATUS(status)


class Server:
    def __init__(self, path, cpu=4, cwd=None, env=None):
        e = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8', FS_CPU=str(cpu), MALLOC_PERTURB_='165')
        if env:
            e.update(env)
        self.path = path
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=cwd, env=e)
        self.name = os.path.basename(path)[3:]

    def _rd(self):
        f = self.p.stdout
        h = f.read(8)
        if len(h) < 8:
            raise RuntimeError('fork server %s died' % self.path)
        st, n = struct.unpack('<iI', h)
        out = f.read(n)
        e, = struct.unpack('<I', f.read(4))
        return Res(st, out, f.read(e))

    def _send(self, reqs, batch):
        P = struct.pack
        b = [P('<II', len(reqs), 1 if batch else 0)]
        for argv, data in reqs:
            argv = [self.name] + list(argv)
            b.append(P('<I', len(argv)))
            for a in argv:
                a = a.encode() if isinstance(a, str) else a
                b.append(P('<I', len(a)))
                b.append(a)
            b.append(P('<I', len(data)))
            b.append(data)
        f = self.p.stdin
        f.write(b''.join(b))
        f.flush()
        return [self._rd() for _ in reqs]

    def run(self, argv, data=b''):
        """one case in a child of its own"""
        return self._send([(argv, data)], False)[0]

    def many(self, reqs, batch=True, chunk=1000):
        """reqs: list of (argv-without-argv0, bytes)"""
        res = []
        for i in range(0, len(reqs), chunk):
            res += self._send(reqs[i:i + chunk], batch)
        return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
