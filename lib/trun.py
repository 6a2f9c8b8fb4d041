"""Runs rule programs (trx.py) on the real transfer, interchunk and postchunk
and compares with the reference interpreter."""
import os
from core import show, describe
from trx import xml, Machine

TOOL = {'t': 'apertium-transfer', 'i': 'apertium-interchunk', 'p': 'apertium-postchunk'}
PRE = 'apertium-preprocess-transfer'


def compile_prog(w, stage, prog, tag='p'):
    """-> (xml file, bin file) or None after reporting a violation"""
    x, b = '%s/%s.x' % (w.tmp, tag), '%s/%s.b' % (w.tmp, tag)
    open(x, 'w').write(prog if isinstance(prog, str) else xml(stage, prog))
    if os.path.exists(b):
        os.unlink(b)
    r = w.run1(PRE, [x, b])
    if r.status != 0 or not os.path.exists(b):
        w.fail(PRE, [x, b], b'', r, 'rule file not compiled: %s' % describe(r.status))
        return None
    return x, b


def argv(stage, f, opts=(), extra=None):
    o = list(opts)
    if stage == 't' and '-n' not in o and extra is None:
        o.append('-b')
    return o + [f[0], f[1]] + (list(extra) if extra else [])


def outputs(w, stage, f, docs, opts=(), extra=None):
    """outputs of all docs in one null-flushed run; None if it failed"""
    a = argv(stage, f, ['-z'] + list(opts), extra)
    w.n += 1
    r = w.server(TOOL[stage]).run(a, b'\0'.join(d.encode() for d in docs) + b'\0')
    if r.status != 0:
        return None
    o = r.out.decode('utf8', 'replace').split('\0')
    return o[:len(docs)] if len(o) >= len(docs) else None


def compare(w, stage, prog, docs, opts=(), expect=None, fmt=None, tag='p', xmltext=None, known=None):
    """prog on all docs; every document is one state"""
    f = compile_prog(w, stage, xmltext or prog, tag)
    if not f:
        return
    m = Machine(stage, prog, bil='-n' not in opts, dictcase='-w' in opts)
    got = outputs(w, stage, f, docs, opts)
    w.states += len(docs)
    for k, d in enumerate(docs):
        m.reset()
        e = expect(m, d) if expect else m.run(d)
        w.trans += m.steps
        if got is not None and got[k] == e:
            w.seen(got[k])
            continue
        a = argv(stage, f, opts)
        r = w.run1(TOOL[stage], a, d.encode())
        if r.status != 0:
            w.fail(TOOL[stage], a, d.encode(), r, '%s; expected %r' % (describe(r.status), e))
        elif r.out.decode('utf8', 'replace') != e:
            if known:
                km = known[1]
                km.reset()
                if km.run(d) == r.out.decode('utf8', 'replace') and w.known_finding(known[0]):
                    continue
            w.fail(TOOL[stage], a, d.encode(), r, 'got %r, expected %r' % (show(r.out), e))
        if w.enough:
            return
    if len(w.samples) < 2 and docs:
        w.samples.append(dict(tool=TOOL[stage], rules=open(f[0]).read()[-1500:], input=docs[len(docs) // 2][:300]))
