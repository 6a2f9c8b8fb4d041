"""Exploration core shared by all checks.

A check is a module props/<id>.py with run(ctx).  It enumerates a finite space
of cases completely (itertools products up to the stated bound, never samples),
runs every case on the real tool through a fork server, and judges the answer
against a reference model written in Python.  Work is split over worker
processes by block number, so every case is visited exactly once.

A wrong answer seen in batch mode counts only if the same case also fails in a
process of its own; a timed-out case is re-run alone with a longer limit.
"""
import base64, hashlib, itertools, json, os, pickle, re, shutil, signal, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, fsrv
from fsrv import Server, describe, Res

VERIF = build.VERIF
NW = int(os.environ.get('VERIF_JOBS', '8'))
MAXV = int(os.environ.get('VERIF_MAXV', '8'))


class Stop(BaseException):
    """enough violations: this worker ends its suite"""


def timed_out(st):
    return os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGPROF, signal.SIGXCPU)


def show(b):
    return b.decode('utf8', 'backslashreplace') if isinstance(b, bytes) else str(b)


class Stats:
    def __init__(self):
        self.n = 0              # executions of the implementation
        self.states = 0         # model states / cases of the enumerated space
        self.trans = 0
        self.nontrivial = set()  # hashes of distinct non-trivial observations
        self.viol = []
        self.known = {}
        self.samples = []
        self.extra = {}

    def merge(self, o):
        self.n += o.n
        self.states += o.states
        self.trans += o.trans
        self.nontrivial |= o.nontrivial
        self.viol += o.viol
        for k, v in o.known.items():
            self.known.setdefault(k, v)
        self.samples += o.samples[:3]
        for k, v in o.extra.items():
            if isinstance(v, set):
                self.extra.setdefault(k, set()).update(v)
            else:
                self.extra[k] = self.extra.get(k, 0) + v


class Worker(Stats):
    def __init__(self, ctx, k):
        super().__init__()
        self.ctx = ctx
        self.k = k
        self.tmp = '%s/w%d' % (ctx.scratch, k)
        os.makedirs(self.tmp, exist_ok=True)
        self.srv = {}
        self.hung = 0
        self.tools = ctx.tools

    def server(self, tool, cpu=4):
        s = self.srv.get((tool, cpu))
        if s is None:
            s = self.srv[(tool, cpu)] = Server(self.tools[tool], cpu=cpu, cwd=self.tmp)
        return s

    def run1(self, tool, argv, data=b''):
        """one case in its own process; time-outs are repeated with a long limit"""
        self.n += 1
        r = self.server(tool).run(argv, data)
        if timed_out(r.status) and self.hung < 2:
            r = self.server(tool, 30).run(argv, data)
            if timed_out(r.status):
                self.hung += 1
        return r

    def many(self, tool, reqs):
        """a batch of cases.  Where cases die slowly the server skips the rest of the
        batch: one that died is run alone, and if it dies there too that is a
        violation and the end of this suite; otherwise the skipped ones are run"""
        self.n += len(reqs)
        res = self.server(tool).many(reqs)
        while True:
            todo = [i for i, r in enumerate(res) if r.status == -1]
            if not todo:
                return res
            for i, r in enumerate(res):
                if r.status != -1 and os.WIFSIGNALED(r.status):
                    r = res[i] = self.run1(tool, *reqs[i])
                    if os.WIFSIGNALED(r.status):
                        self.fail(tool, reqs[i][0], reqs[i][1], r, 'the tool does not end normally: ' + describe(r.status))
                        raise Stop()
            for i, r in zip(todo, self.server(tool).many([reqs[i] for i in todo])):
                res[i] = r

    def seen(self, *obs):
        h = hashlib.blake2b(digest_size=8)
        for o in obs:
            h.update(o if isinstance(o, bytes) else str(o).encode())
            h.update(b'\0\1')
        self.nontrivial.add(h.digest())

    def check(self, tool, cases, judge, obs=True):
        """cases: list of (argv, data, key); judge(key, Res) -> None | message"""
        reqs = [(a, d) for a, d, k in cases]
        for (a, d, key), r in zip(cases, self.many(tool, reqs)):
            if obs:
                self.seen(r.out)
            m = judge(key, r)
            if m is not None:
                r2 = self.run1(tool, a, d)
                m = judge(key, r2)
                if m is not None:
                    self.fail(tool, a, d, r2, m)
        if len(self.samples) < 3 and cases:
            a, d, key = cases[len(cases) // 2]
            self.samples.append(dict(tool=tool, argv=[show(x).replace(self.ctx.scratch, '$T') for x in a], input=show(d)[:400]))

    def fail(self, tool, argv, data, res, msg, files=()):
        if len(self.viol) >= MAXV:
            self.extra['violations_not_listed'] = self.extra.get('violations_not_listed', 0) + 1
            return
        fs = {}
        for f in list(files) + [a for a in argv if isinstance(a, str) and a.startswith(self.ctx.scratch)]:
            try:
                fs[f.replace(self.ctx.scratch, '$T')] = base64.b64encode(open(f, 'rb').read()).decode()
            except OSError:
                pass
        self.viol.append(dict(tool=tool, argv=[show(a) for a in argv], input=show(data), input_b64=base64.b64encode(data).decode(),
                              result=describe(res.status) if res else '', output=show(res.out)[:4000] if res else '',
                              stderr=show(res.err)[:2000] if res else '', message=msg, files_b64=fs))
        if res and timed_out(res.status):
            self.extra['timeouts'] = self.extra.get('timeouts', 0) + 1
            if self.hung >= 2:
                raise Stop()

    def known_finding(self, key):
        """True (and reported) if the finding is listed in known_findings.txt"""
        t = self.ctx.findings.get((self.ctx.pid, key))
        if t is None:
            return False
        self.known.setdefault(key, t)
        return True

    @property
    def enough(self):
        return len(self.viol) >= MAXV


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.stats = Stats()
        self.tools = {}
        self.suites = {}
        self.B = build.Builder(self.scratch)
        self.level = 'model_checking'
        self.rule = ''
        self.assumptions = []
        self.exhaustive = True
        self.findings = findings()

    def pick(self, q, t):
        return q if self.quick else t

    def need(self, *tools):
        new = [t for t in tools if t not in self.tools]
        self.tools.update(self.B.tools(*new))

    def parallel(self, name, items, fn, block=1, nw=None):
        """fn(worker, list-of-items) for every block of the generator items()"""
        nw = nw or NW
        if os.environ.get('VERIF_SUITE') and not re.search(os.environ['VERIF_SUITE'], name):   # for work on one suite; never set by the registered commands
            return Stats()
        if self.stats.extra.get('timeouts') or len(self.stats.viol) >= 4 * MAXV:
            print('  suite %-28s left out after the violations above' % name)
            return Stats()
        pids = []
        t0 = time.time()
        for k in range(nw):
            f = '%s/res_%s_%d' % (self.scratch, re.sub(r'\W', '_', name), k)
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    w = Worker(self, k)
                    it = iter(items())
                    b = 0
                    try:
                        while True:
                            blk = list(itertools.islice(it, block))
                            if not blk:
                                break
                            if b % nw == k:
                                fn(w, blk)
                                if w.enough:
                                    break
                            b += 1
                    except Stop:
                        pass
                    for s in w.srv.values():
                        s.close()
                    st = Stats()
                    for a in vars(st):
                        setattr(st, a, getattr(w, a))
                    pickle.dump(st, open(f, 'wb'))
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(rc)
            pids.append((pid, f))
        bad = False
        su = Stats()
        for pid, f in pids:
            _, st = os.waitpid(pid, 0)
            if st:
                bad = True
            else:
                su.merge(pickle.load(open(f, 'rb')))
        if bad:
            raise RuntimeError('worker failed in suite ' + name)
        self.suites[name] = dict(executions=su.n, cases=su.states, distinct_outputs=len(su.nontrivial), wall_s=round(time.time() - t0, 1))
        for k, v in su.extra.items():
            self.suites[name][k] = len(v) if isinstance(v, set) else v
        for v in su.viol:
            v['suite'] = name
        self.stats.merge(su)
        print('  suite %-28s executions %8d  cases %8d  distinct outputs %7d  %.1fs%s' % (
            name, su.n, su.states, len(su.nontrivial), time.time() - t0, '  VIOLATIONS %d' % len(su.viol) if su.viol else ''))
        sys.stdout.flush()
        return su

    def sequences(self, name, tool, argvs, alphabet, depth, expect, sep=b'', skip=None, block=400, canon=None):
        """every sequence over `alphabet` (bytes tokens) of length 0..depth, for
        every argv.  expect(argv, tokens) -> bytes | callable(Res)->msg | None.
        The sequences form a tree; its nodes are the states, its edges the
        transitions, and every node is executed on the implementation."""
        self.need(tool)
        nodes = depth if isinstance(depth, int) else max(depth)

        def gen():
            for d in range(0, nodes + 1):
                for t in itertools.product(range(len(alphabet)), repeat=d):
                    toks = [alphabet[i] for i in t]
                    if skip and skip(toks):
                        continue
                    yield toks

        def fn(w, blk):
            for argv in argvs:
                cases = []
                for toks in blk:
                    e = expect(argv, toks)
                    if e is None:
                        continue
                    cases.append((argv, sep.join(toks), e))
                    w.states += 1
                    w.trans += len(toks)
                w.check(tool, cases, judge_eq)
                if w.enough:
                    return
        return self.parallel(name, gen, fn, block)

    def finish(self):
        st = self.stats
        out = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
        os.makedirs(out, exist_ok=True)
        import glob
        for f in glob.glob('%s/replay-%s-*.json' % (out, self.pid)):
            os.unlink(f)
        cov = dict(states=st.states, transitions=max(st.trans, 0), traces_validated_against_impl=st.n,
                   distinct_observed_outputs=len(st.nontrivial), exhaustive=self.exhaustive,
                   rule=self.rule, suites=self.suites, samples=st.samples[:12] or ['(none)'])
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(st.viol))
        tmp = '%s/.%s.tmp' % (out, self.pid)
        json.dump(ev, open(tmp, 'w'), indent=1, ensure_ascii=False)
        os.rename(tmp, '%s/%s.json' % (out, self.pid))
        for k, v in sorted(st.known.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, v))
        for i, v in enumerate(st.viol[:MAXV]):
            f = '%s/replay-%s-%d.json' % (out, self.pid, i + 1)
            json.dump(v, open(f, 'w'), indent=1, ensure_ascii=False)
            print('--- %s: %s' % (v.get('suite'), v['message']))
            print('VIOLATION property=%s replay=%s' % (self.pid, f))
        print('%s %s: %d cases, %d executions, %d distinct outputs, %d violations, %.1fs' % (
            self.pid, self.tier, st.states, st.n, len(st.nontrivial), len(st.viol), time.time() - self.t0))
        return 1 if st.viol else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def judge_eq(exp, r):
    if callable(exp):
        return exp(r)
    if r.status != 0:
        return '%s; expected output %r' % (describe(r.status), show(exp))
    if r.out != exp:
        return 'got %r, expected %r' % (show(r.out), show(exp))
    return None


def findings():
    """known findings: lines 'finding: property=<id> key=<key> <text>'"""
    res = {}
    try:
        for l in open(VERIF + '/known_findings.txt', encoding='utf8'):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    except OSError:
        pass
    return res


def main(pid, tier):
    sys.path.insert(0, VERIF + '/props')
    ctx = Ctx(pid, tier)
    try:
        mod = __import__(pid.lower())
        mod.run(ctx)
        rc = ctx.finish()
    except build.BuildError as e:
        print('build failed:', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    return rc
