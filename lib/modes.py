"""Reference model of mode files: what apertium-gen-modes has to write."""
import os, re
from xml.sax.saxutils import quoteattr

# conventional suffixes: (program prefix, [(needed substring or None, suffixes)])
CONV = [
    ('cg-proc', [(None, ['disam'])]),
    ('apertium-tagger', [(None, ['tagger'])]),
    ('apertium-pretransfer', [(None, ['pretransfer'])]),
    ('apertium-posttransfer', [(None, ['posttransfer'])]),
    ('lrx-proc', [(None, ['lex', 'lextor'])]),
    ('apertium-transfer', [(' -n', ['transfer2']), (None, ['chunker', 'transfer'])]),
    ('apertium-interchunk', [(None, ['interchunk'])]),
    ('apertium-postchunk', [(None, ['postchunk'])]),
    ('', [('$1', ['dgen', 'generador'])]),
    ('lt-proc', [(' -b', ['biltrans']), (' -p', ['pgen']), (' -g', ['morph']), (None, ['morph', 'anmor'])]),
    ('hfst-proc', [(' -g', ['morph']), (None, ['morph', 'anmor'])]),
    ('lsx-proc', [(' -p', ['pgen']), (None, ['autoseq'])]),
    ('rtx-proc', [(None, ['transfer'])]),
    ('apertium-anaphora', [(None, ['anaph'])]),
    ('apertium-extract-caps', [(None, ['decase'])]),
    ('apertium-restore-caps', [(None, ['recase'])]),
]
TRACE = [('cg-proc', '-t'), ('lrx-proc', '-t'), ('apertium-transfer', '-t'), ('apertium-interchunk', '-t'), ('apertium-postchunk', '-t'), ('rtx-proc', '-r'), ('apertium-anaphora', '-d')]


def suffixes(step):
    cmd, suff, args = step
    if suff is not None:
        return [suff]
    for pre, rules in CONV:
        if cmd.startswith(pre):
            for need, s in rules:
                if need is None or need in cmd:
                    return s
    return ['NAMEME']


def traced(steps):
    cmd, suff, args = steps[-1]
    for pre, o in TRACE:
        if cmd.startswith(pre):
            return steps[:-1] + [(cmd + ' ' + o, suff, args)]
    return steps[:-1] + [(cmd.replace('$1', '-d', 1), suff, args)]


def untrimmed(steps):
    def un(n):
        h, s, t = n.rpartition('.automorf.')
        return h + '.automorf-untrimmed.' + t if s else n
    return [(c, s, [(k, un(n)) for k, n in a]) for c, s, a in steps]


def expand(modes):
    """modes: list of (name, install, gendebug, steps) -> {name: (install, steps)}"""
    res = {}
    for n, i, g, st in modes:
        res[n] = (i == 'yes', st)
    for n, i, g, st in sorted(modes, key=lambda m: m[0].encode()):
        if g != 'yes':
            continue
        for k in range(len(st)):
            for s in suffixes(st[k]):
                d = n + '-' + s
                if d in res:
                    continue
                res[d] = (False, traced(st[:k + 1]))
                if '@' + d not in res:
                    res['@' + d] = (False, untrimmed(traced(st[:k + 1])))
    return res


def line(steps, filedir):
    r = []
    for c, s, a in steps:
        x = c
        for k, n in a:
            x += " '%s'" % os.path.join(filedir, n) if k == 'file' else ' ' + n
        r.append(x)
    return ' | '.join(r) + '\n'


def xml(modes, order=0):
    o = '<?xml version="1.0" encoding="UTF-8"?>\n<modes>\n'
    for n, i, g, st in modes:
        at = [('name', n)] + [('install', i)] * (i is not None) + [('gendebug', g)] * (g is not None)
        if order:
            at.reverse()
        o += '  <mode %s>\n    <!-- c --><pipeline>\n' % ' '.join('%s=%s' % (k, quoteattr(v)) for k, v in at)
        for c, s, a in st:
            at = [('name', c)] + [('debug-suff', s)] * (s is not None)
            if order:
                at.reverse()
            o += '      <program %s>%s</program>\n' % (' '.join('%s=%s' % (k, quoteattr(v)) for k, v in at), ''.join('<%s name=%s/>' % (k, quoteattr(v)) for k, v in a))
        o += '    </pipeline>%s\n  </mode>\n' % ('<preferences><pref path="x"/></preferences>' if order else '')
    return o + '</modes>\n'


CMDS = ['cg-proc', 'cg-proc -w', 'apertium-tagger -g', 'apertium-tagger -g $2', 'apertium-pretransfer', 'apertium-pretransfer -z', 'apertium-posttransfer', 'lrx-proc', 'lrx-proc -m', 'apertium-transfer', 'apertium-transfer -b',
        'apertium-transfer -n', 'apertium-transfer -b -n', 'apertium-interchunk', 'apertium-interchunk -z', 'apertium-postchunk', 'lt-proc', 'lt-proc -w', 'lt-proc -e -w', 'lt-proc -b', 'lt-proc -p', 'lt-proc -g', 'lt-proc $1', 'lt-proc -d', 'hfst-proc', 'hfst-proc -w',
        'hfst-proc -g', 'hfst-proc $1', 'lsx-proc', 'lsx-proc -p', 'rtx-proc', 'rtx-proc $1', 'apertium-anaphora', 'apertium-extract-caps', 'apertium-restore-caps', 'apertium-cleanstream -n', 'apertium-wblank-attach', 'foo', 'bash -c "$1 é"', 'xlt-proc -b', 'apertium-transferx']
ARGS = [[], [('file', 'l.automorf.bin')], [('file', 'l.autogen.bin'), ('arg', '-x')], [('arg', 'a.automorf.hfst'), ('file', 'é b.bin'), ('arg', '&<')], [('file', 'x.automorf.automorf.bin'), ('file', 'automorf.bin')], [('arg', '$2'), ('arg', '-t')]]
