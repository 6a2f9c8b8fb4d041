"""P28: the apertium command runs the pipeline its options describe."""
import io, itertools as it, os, pwd, re, shutil, subprocess, zipfile
import build
from core import describe, show, Res

VERSION = 'Apertium 1.2.3'
MODE = "lt-proc -w '/d/x.automorf.bin' | apertium-tagger -g $2 '/d/x.prob' | lt-proc $1 '/d/x.autogen.bin' | lt-proc -p '/d/x.autopgen.bin'\n"
TOOLS = ['lt-proc', 'apertium-tagger', 'apertium-wblank-attach', 'apertium-wblank-detach', 'lt-tmxcomp', 'lt-tmxproc', 'apertium-prelatex', 'apertium-utils-fixlatex', 'apertium-deslatex', 'apertium-relatex', 'apertium-postlatex-raw', 'apertium-adapt-docx'] + \
    ['apertium-%s%s' % (d, f) for d in ('des', 're') for f in ('txt', 'html', 'html-alt', 'html-noent', 'rtf', 'odt', 'wxml', 'xlsx', 'pptx', 'mediawiki', 'xpresstag')]
PREFS = '''<preferences><preference id="ise_ize"><options><option id="agonise"/><option id="idolise"/><option id="exorcise"/><option id="lionise"/></options></preference>
<preference id="color_colour"><options><option id="color"/><option id="colour"/></options></preference></preferences>'''
IDS = {'ise_ize': ['agonise', 'idolise', 'exorcise', 'lionise'], 'color_colour': ['color', 'colour']}


def mark(d, *a):
    m = ('{%s}' % '|'.join(a)).encode()
    d = re.sub(rb'[\n\0]', lambda x: m + x.group(0), d)
    return d if d[-1:] in (b'\n', b'\0') else d + m


class Case:
    """one request: values of the features that differ from the default"""
    D = dict(fmt='', u=0, a=0, n=0, H=0, z=0, tm='', args=1, order=0, sv='', prefs='', tf='', inp='a b\n', datadir='-d', pair='x-y', tmpd='tmp', env=0)

    def __init__(self, **k):
        self.__dict__.update(self.D)
        self.__dict__.update(k)

    def argv(self, sub):
        o = []
        if self.datadir == '-d':
            o += ['-d', sub['data']]
        if self.fmt:
            o += ['-f', self.fmt]
        for x in 'unzaH':
            if getattr(self, x):
                o += ['-' + x]
        if self.tm:
            o += ['-m', 'mem.tmx'] if 'b' not in self.tm else ['-m', 'bad.tmx']
            if 's' in self.tm:
                o.append('-s')
            if 'o' in self.tm:
                o += ['-o', 'p-q']
        pos = [self.pair] + [sub['in']] * (self.args > 1) + [sub['out']] * (self.args > 2)
        if self.order == 1:
            return pos[:1] + o + pos[1:]
        if self.order == 2:
            return pos + o
        if self.order == 3 and len(o) > 1 and o[-1][0] != '-' and o[-2][0] == '-':
            return o[:-2] + [o[-2] + o[-1]] + pos     # -fX
        if self.order == 4 and len(pos) > 1:
            return pos[:2] + o + pos[2:]
        return o + pos

    @property
    def transfuse(self):
        """None: fails"""
        kind = {'odt': 'odt', 'odp': 'odt', 'odtu': 'odt', 'odpu': 'odt', 'docx': 'docx', 'docxu': 'docx', 'pptx': 'pptx', 'pptxu': 'pptx', 'html': 'html', 'html-noent': 'html', 'line': 'line'}.get(self.fmt)
        if not kind:
            return ''
        has, env = self.tf.startswith('tf'), self.tf.replace('tf', '', 1) if self.tf.startswith('tf') else self.tf
        if env in ('1', 'yes') and not has:
            return None
        return kind if has and env not in ('0', 'no') else ''


def setvar(c):
    v = c.sv
    if not c.prefs or not v:
        return v
    r = []
    for kv in v.split(','):
        k, s, x = kv.partition('=')
        if x.startswith('-'):
            kv = k + '=' + ':'.join(i for i in IDS.get(k, []) if i not in x[1:].split(':'))
        r.append(kv)
    return ','.join(r)


def run_mode(d, c, z, opt):
    v = setvar(c)
    if v and d:
        m = ('[<STREAMCMD:SETVAR:%s>]' % v).encode()
        d = m + d.replace(b'\0', b'\0' + m)
    zz = ['-z'] if z else []
    d = mark(d, 'lt-proc', *zz, '-w', '/d/x.automorf.bin')
    d = mark(d, 'apertium-wblank-attach')
    d = mark(d, 'apertium-tagger', *zz, '-g', *(['-m'] if c.a else []), '/d/x.prob')
    d = mark(d, 'apertium-wblank-detach')
    d = mark(d, 'lt-proc', *zz, opt, '/d/x.autogen.bin')
    d = mark(d, 'lt-proc', *zz, '-p', '/d/x.autopgen.bin')
    if v:
        d = re.sub(rb'\[<STREAMCMD:SETVAR:[^>]*>\]', b'', d)
    return d


def tmx(d, c, z=False):
    if not c.tm:
        return d
    return mark(d, 'lt-tmxproc', *(['-z'] if z else []), *(['-s'] if 's' in c.tm else []), 'TM(%s,mem.tmx)' % ('p-q' if 'o' in c.tm else c.pair))


def model(c, doc, infile):
    """-> the translated document"""
    f, opt = c.fmt or 'txt', '-n' if c.u else '-g'
    if f in ('txtu', 'htmlu', 'xpresstagu', 'wxmlu'):
        f, opt = f[:-1], '-n'
        plain = True
    else:
        plain = f in ('txt', 'rtf', 'xpresstag', 'mediawiki', 'wxml', 'none', 'nosuch')
    if f == 'nosuch':
        f = 'txt'
    fo = ['-n'] * c.n + ['-o'] * c.H
    if c.transfuse:
        d = mark(doc, 'tf-extract', *(['--apertium-n'] * c.n + ['-H'] * c.H), '-f', c.transfuse, infile)
        return mark(run_mode(tmx(d, c, True), c, True, opt), 'tf-inject')
    if f == 'none':
        return run_mode(tmx(doc, c), c, c.z, opt)
    if plain:
        d = mark(doc, 'apertium-des' + f, *fo, infile)
        return mark(run_mode(tmx(d, c), c, c.z, opt), 'apertium-re' + f)
    if f in ('html', 'html-noent', 'html-alt'):
        des, re_ = {'html': ('html', 'html'), 'html-noent': ('html', 'html-noent'), 'html-alt': ('html-alt', 'html-noent')}[f]
        d = mark(doc, 'apertium-des' + des, *fo, infile)
        return mark(run_mode(tmx(d, c), c, c.z, opt), 'apertium-re' + re_)
    if f == 'line':
        d = mark(doc, 'apertium-destxt', '-n', infile)
        d = re.sub(rb'[ \t\r\f\v]*\[(?=\n|$)', b'[][', d)
        return mark(run_mode(tmx(d, c), c, c.z, opt), 'apertium-retxt')
    assert f in ('latex', 'latex-raw')
    d = mark(doc, 'apertium-prelatex', infile if c.args > 1 else 'TMP')
    d = mark(d, 'apertium-utils-fixlatex')
    d = mark(d, 'apertium-deslatex', *fo)
    d = mark(run_mode(tmx(d, c), c, c.z, opt), 'apertium-relatex')
    d = d.replace(b'</CONTENTS-noeos>', b'</CONTENTS>')
    if d and d[-1:] != b'\n':
        d += b'\n'
    return mark(d, 'apertium-postlatex-raw')


FEATURES = dict(u=[1], a=[1], n=[1], H=[1], z=[1], tm=['m', 'mo', 'ms'], args=[2, 3], order=[1, 2, 3, 4], sv=['k=v', 'ise_ize=-agonise:idolise,color_colour,q=r'], prefs=['x-y', 'x'], tf=['0', 'tf', 'tfyes', 'tf0', 'tf1', 'tfno', '1', 'yes', 'no'],
                inp=['', 'ab', 'a\nb [\nc</CONTENTS-noeos>\n', '\u00e9 b\\$1\n'], datadir=['env'], tmpd=['my settings rels'], env=[1])


def combos(feats, k):
    names = sorted(feats)
    for n in range(0, k + 1):
        for fs in it.combinations(names, n):
            for vs in it.product(*[feats[f] for f in fs]):
                yield dict(zip(fs, vs))


class Box:
    """a scratch world for one worker, owned by an unprivileged user"""

    def __init__(self, ctx, d):
        self.d = d
        self.user = None
        try:
            p = pwd.getpwnam('nobody')
            if subprocess.run(['true'], user=p.pw_uid, group=p.pw_gid, extra_groups=[]).returncode == 0:
                self.user = p
        except Exception:
            pass
        for s in ('bin', 'tf', 'data', 'data/modes', 'data/prefs', 'tmp', 'my settings rels', 'cwd', 'empty'):
            os.makedirs(d + '/' + s, exist_ok=True)
        shutil.copy(ctx.stub, d + '/bin/stub')
        for t in TOOLS:
            os.symlink('stub', d + '/bin/' + t)
        for t in ('tf-extract', 'tf-inject'):
            os.symlink('../bin/stub', d + '/tf/' + t)
        shutil.copy(ctx.wbm, d + '/bin/apertium-wblank-mode')
        hdr = '#!/usr/bin/env bash\nAPERTIUM_PATH="${APERTIUM_PATH:-/usr/local/bin}"\nAPERTIUM_DATADIR="${APERTIUM_DATADIR:-/usr/local/share/apertium}"\napertium_version="%s"\n' % VERSION
        self.script = d + '/bin/apertium'
        open(self.script, 'w', encoding='utf8').write(hdr + open(build.SRC + '/apertium-header.sh', encoding='utf8').read())
        os.chmod(self.script, 0o755)
        for m in ('x-y', 'x-z', 'x-y-tagger'):
            open('%s/data/modes/%s.mode' % (d, m), 'w').write(MODE)
        self.sub = dict(data=d + '/data', out='out.txt')
        self.sub['in'] = 'in file.txt'
        self.own()

    def own(self):
        if self.user:
            for r, ds, fs in os.walk(self.d):
                for x in [r] + [r + '/' + f for f in fs]:
                    os.chown(x, self.user.pw_uid, self.user.pw_gid, follow_symlinks=False)

    def run(self, c, argv, doc, files={}):
        cwd = self.d + '/cwd'
        for f in os.listdir(cwd):
            os.unlink(cwd + '/' + f)
        for f, t in files.items():
            open(cwd + '/' + f, 'wb').write(t)
        for f in ('x-y', 'x'):
            p = '%s/data/prefs/%s.xml' % (self.d, f)
            if os.path.exists(p):
                os.unlink(p)
            if c and c.prefs == f:
                open(p, 'w').write(PREFS)
        tmpd = self.d + '/' + (c.tmpd if c else 'tmp')
        env = {'PATH': (self.d + '/tf:' if c and c.tf.startswith('tf') else '') + '/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'APERTIUM_PATH': self.d + '/bin', 'TMPDIR': tmpd, 'STUB_LOG': self.d + '/log', 'HOME': cwd}
        env['APERTIUM_DATADIR'] = self.d + ('/data' if c and c.datadir == 'env' else '/empty')
        if c:
            if c.sv:
                env['AP_SETVAR'] = c.sv
            e = c.tf.replace('tf', '', 1) if c.tf.startswith('tf') else c.tf
            if e:
                env['APERTIUM_TRANSFUSE'] = e
        if c and c.env:
            env.update(BORRAFICHERO='true', REDIR='>', OUT_FILE='other.txt', UWORDS='no', OPTION_TAGGER='-m', TRANSLATION_MEMORY_FILE='mem.tmx', FORMAT='html', PAIR='x-z', INFILE='in2.txt', DATADIR='/', OPTION='-q', LIST_MODES_AND_EXIT='true', OPTIND='3', USE_TRANSFUSE='yes', TMP_OUT_FILE='z')
        if os.path.exists(self.d + '/log'):
            os.unlink(self.d + '/log')
        kw = dict(user=self.user.pw_uid, group=self.user.pw_gid, extra_groups=[]) if self.user else {}
        rd, wr = os.pipe()
        if self.user:
            os.fchown(rd, self.user.pw_uid, self.user.pw_gid)
        os.write(wr, doc)
        os.close(wr)
        try:
            p = subprocess.run(['bash', self.script] + argv, stdin=rd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=60, **kw)
            st, out, err = (p.returncode << 8 if p.returncode >= 0 else -p.returncode), p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            st, out, err = 9, e.stdout or b'', e.stderr or b''
        os.close(rd)
        left = os.listdir(tmpd)
        for f in left:
            p = tmpd + '/' + f
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        try:
            log = open(self.d + '/log').read().split()
        except OSError:
            log = []
        after = {f: open(cwd + '/' + f, 'rb').read() for f in os.listdir(cwd)}
        return Res(st, out, err), left, log, after


def run(ctx):
    ctx.rule = ('every request with at most k settings different from the defaults, for every format, run by the real script with recording stand-ins for the tools (mode rewriting by the real tool); final output, exit status, files written and temporary files left compared with the declared pipeline')
    B = ctx.B
    ctx.stub = ctx.scratch + '/stub'
    build.run(['gcc', '-O1', '-o', ctx.stub, build.VERIF + '/lib/stub.c'])
    ctx.wbm = B.binary('apertium-wblank-mode')
    os.chmod(ctx.scratch, 0o755)

    def box(w):
        if not hasattr(w, 'box'):
            d = '%s/box%d' % (ctx.scratch, w.k)
            if os.path.exists(d):
                shutil.rmtree(d)
            w.box = Box(ctx, d)
        return w.box

    def report(w, c, argv, doc, r, left, e):
        if not e and left:
            e = 'temporary files left: %s' % len(left)
        w.states += 1
        w.trans += len(argv)
        w.n += 1
        w.seen(r.out, r.status)
        if e:
            w.fail('apertium', [a.replace(w.box.d, '$T') for a in argv], doc, r, '%s (settings %s)' % (e, {k: v for k, v in vars(c).items() if v != Case.D.get(k)} if c else {}))

    def one(w, c):
        b = box(w)
        sub = b.sub
        argv = c.argv(sub)
        doc = c.inp.encode()
        files = {'mem.tmx': b'', 'bad.tmx': b''}
        if c.args > 1:
            files[sub['in']] = doc
        r, left, log, after = b.run(c, argv, doc if c.args == 1 else b'ignored', files)
        if c.transfuse is None:
            e = None if r.status and 'lt-proc' not in log else 'Transfuse demanded but missing: %s, tools run: %s' % (describe(r.status), log)
            return report(w, c, argv, doc, r, left, e)
        exp = model(c, doc, sub['in'] if c.args > 1 else '/dev/stdin')
        e = None
        extra = set(after) - set(files) - ({sub['out']} if c.args > 2 else set())
        got = after.get(sub['out'], None) if c.args > 2 else r.out
        if r.status:
            e = describe(r.status)
        elif got != exp:
            e = 'got %r, expected %r' % (show(got) if got is not None else None, show(exp))
        elif c.args > 2 and r.out:
            e = 'output on standard output although a file was named'
        elif extra or any(after[f] != files[f] for f in files):
            e = 'files changed: %s' % sorted(extra)
        elif c.fmt == 'nosuch' and b'nosuch' not in r.err:
            e = 'no warning about the unknown format'
        report(w, c, argv, doc, r, left, e)

    def fn(w, blk):
        for c in blk:
            one(w, c)
            if w.enough:
                return
    PLAIN = ['', 'txt', 'rtf', 'xpresstag', 'mediawiki', 'wxml', 'none', 'html', 'html-noent', 'html-alt', 'line', 'latex', 'latex-raw', 'txtu', 'htmlu', 'xpresstagu', 'wxmlu', 'nosuch']

    def gen():
        for f in PLAIN:
            fe = {k: v for k, v in FEATURES.items() if k not in ('tf',) or f in ('html', 'html-noent', 'line', '')}
            if f not in ('', 'html'):
                fe['prefs'] = []
            for k in combos(fe, ctx.pick(2, 3) if f in ('', 'html', 'line', 'latex') else ctx.pick(1, 2)):
                if k.get('prefs') and not k.get('sv'):
                    continue
                if k.get('order') == 4 and k.get('args', 1) == 1:
                    continue
                if not k.get('inp', 'x') and f.startswith('latex'):
                    continue
                yield Case(fmt=f, **k)
        # everything about the five switches together
        for f in PLAIN:
            for v in it.product((0, 1), repeat=5):
                for t in ctx.pick(['mo'], ['', 'm', 'mo', 'ms', 'mos']):
                    yield Case(fmt=f, tm=t, args=1 + sum(v) % 3, order=sum(v[:3]), **dict(zip('uanHz', v)))
        for f in ('', 'html', 'none', 'line'):
            for doc in ('a\0b\0', 'a\0', '\0', 'a\n\0b\0c'):
                for v in it.product((0, 1), ('', 'k=v'), ('', 'tf')):
                    yield Case(fmt=f, inp=doc, z=v[0], sv=v[1], tf=v[2])
        for p, s in it.product(('x-y', 'x'), ('ise_ize=-agonise', 'ise_ize=-lionise:agonise:exorcise', 'ise_ize=-agonise:idolise:exorcise:lionise', 'color_colour=-color,ise_ize=-idolise', 'a=b,color_colour=-colour,c', 'ise_ize=agonise:lionise', 'color_colour')):
            yield Case(prefs=p, sv=s)
    ctx.parallel('documents', gen, fn, 8)

    # ---- archives
    def pack(ents):
        s = io.BytesIO()
        with zipfile.ZipFile(s, 'w') as z:
            for n, t in ents.items():
                z.writestr(n, t)
        return s.getvalue()

    def unpack(b):
        try:
            with zipfile.ZipFile(io.BytesIO(b)) as z:
                return {n: z.read(n) for n in z.namelist() if not n.endswith('/')}
        except zipfile.BadZipFile:
            return None
    XML = '<?xml version="1.0"?>\n<x>a\nb</x>'
    ARCH = {
        'odt': ({'content.xml': XML, 'styles.xml': XML.replace('a', 's'), 'sub/content.xml': XML.replace('a', 'c'), 'meta.xml': XML, 'ObjectReplacements/x': 'y', 'mimetype': 'm'}, lambda n: os.path.basename(n) in ('content.xml', 'styles.xml'), 'odt'),
        'docx': ({'word/document.xml': XML, 'word/settings.xml': XML, 'word/header1.xml': XML.replace('a', 'h'), 'docProps/app.xml': XML, '[Content_Types].xml': XML, 'word/theme/t.xml': XML, 'word/media/i.png': 'P'}, lambda n: n in ('word/document.xml', 'word/header1.xml'), 'wxml'),
        'pptx': ({'ppt/slides/slide1.xml': XML, 'ppt/slides/slide22.xml': XML.replace('a', 'c'), 'ppt/other.xml': XML}, lambda n: '/slides/slide' in n, 'pptx'),
        'xlsx': ({'xl/sharedStrings.xml': XML, 'xl/workbook.xml': XML}, lambda n: n.endswith('sharedStrings.xml'), 'xlsx'),
    }
    ARCH['odp'] = ARCH['odt']
    for f in list(ARCH):
        ARCH[f + 'u'] = ARCH[f]

    def translate(f, c, ents):
        _, sel, tool = ARCH[f]
        opt = '-n' if c.u or f.endswith('u') else '-g'
        out = {}
        for n, t in ents.items():
            if f[:3] in ('odt', 'odp') and n.startswith('ObjectReplacements'):
                continue
            t = t if isinstance(t, bytes) else t.encode()
            if f[:4] in ('docx', 'pptx') and n.endswith('.xlsx'):
                t = ('ZIP', translate('xlsxu' if opt == '-n' and c.u else 'xlsx', Case(fmt='xlsx', u=c.u, sv=c.sv, prefs=c.prefs), unpack(t)))
            elif sel(n):
                d = t.replace(b'\n', b' ')
                d = b' ' + d
                if f[:4] == 'docx':
                    d = mark(d, 'apertium-adapt-docx', '-n')
                d = mark(d, 'apertium-des' + tool, *(['-n'] * c.n + ['-o'] * c.H))
                cc = Case(**{k: v for k, v in vars(c).items()})
                v, cc.sv = setvar(c), ''
                d = mark(run_mode(tmx(d, c), cc, c.z, opt), 'apertium-re' + tool)
                t = d.replace(b'?> ', b'?>\n') + b'\n'
            out[n] = t
        return out

    def same(exp, got):
        if got is None or set(exp) != set(got):
            return 'entries %s, expected %s' % (got and sorted(got), sorted(exp))
        for n, t in exp.items():
            g = got[n]
            if isinstance(t, tuple):
                e = same(t[1], unpack(g))
                if e:
                    return '%s: %s' % (n, e)
            elif g.strip() != t.strip():
                return '%s: got %r, expected %r' % (n, show(g), show(t))
        return None

    def arch(w, c):
        b = box(w)
        sub = b.sub
        ents = dict(ARCH[c.fmt][0])
        if c.inp == 'xlsx':
            ents[{'d': 'word', 'p': 'ppt'}[c.fmt[0]] + '/embeddings/e 1.xlsx'] = pack(ARCH['xlsx'][0])
        doc = pack(ents)
        argv = c.argv(sub)
        files = {'mem.tmx': b''}
        if c.args > 1:
            files[sub['in']] = doc
        r, left, log, after = b.run(c, argv, doc if c.args == 1 else b'ignored', files)
        got = after.get(sub['out'], b'') if c.args > 2 else r.out
        e = None
        if c.transfuse is None:
            e = None if r.status and 'lt-proc' not in log else 'Transfuse demanded but missing: %s, tools run: %s' % (describe(r.status), log)
        elif c.transfuse:
            exp = model(c, b'', '')
            infile = sub['in'] if c.args > 1 else '/dev/stdin'
            if r.status:
                e = describe(r.status)
            # every mark has to appear, in this order, behind the document
            else:
                exp = model(Case(**dict(vars(c), fmt='odt' if c.fmt[:3] in ('odt', 'odp') else c.fmt)), doc, infile) if not c.fmt.endswith('u') else None
                if exp is not None and got != exp:
                    e = 'Transfuse: got %r' % show(got[-400:])
        elif r.status:
            e = describe(r.status)
        else:
            e = same(translate(c.fmt, c, ents), unpack(got))
        if not e and c.args > 2 and r.out:
            e = 'output on standard output although a file was named'
        extra = set(after) - set(files) - ({sub['out']} if c.args > 2 else set())
        if not e and extra:
            e = 'files created: %s' % sorted(extra)
        report(w, c, argv, b'(archive)', r, left, e)

    def fn2(w, blk):
        for c in blk:
            arch(w, c)
            if w.enough:
                return

    def gen2():
        fe = dict(u=[1], a=[1], n=[1], H=[1], z=[1], tm=['m', 'mo'], args=[2, 3], order=[1, 2], tf=['tf', 'tf0', '1'], inp=['xlsx'], tmpd=['my settings rels'], env=[1])
        for f in ARCH:
            for k in combos(fe, ctx.pick(1, 2)):
                if k.get('inp') and f[:4] not in ('docx', 'pptx') or k.get('tf') and f[:4] == 'xlsx' or k.get('inp') and k.get('tf') or k.get('inp') and f.endswith('u'):
                    continue
                if k.get('tf') == 'tf' and f.endswith('u'):
                    continue
                yield Case(fmt=f, **k)
            for v in it.product((0, 1), repeat=4):
                yield Case(fmt=f, args=2, inp='xlsx' if f in ('docx', 'pptx') else 'a b\n', **dict(zip('uanH', v)))
    ctx.parallel('archives', gen2, fn2, 2)

    # ---- requests that cannot be served, and information requests
    def bad(w, blk):
        for name, argv, ok in blk:
            b = box(w)
            argv = [a.replace('$D', b.d) for a in argv]
            doc = b'doc\xe9\n' if name == 'not UTF-8' else b'doc\n'
            r, left, log, after = b.run(Case(), argv, doc, {'in file.txt': b'doc\n', 'bad.tmx': b'', 'mem.tmx': b''})
            e = None
            if ok is None:
                if r.status == 0:
                    e = '%s: succeeds' % name
                elif os.WIFSIGNALED(r.status):
                    e = '%s: %s' % (name, describe(r.status))
                elif any(t not in ('lt-tmxcomp',) for t in log) and name != 'not an archive':
                    e = '%s: tools run: %s' % (name, log)
                elif b'doc' in r.out.replace(b'docx', b'').replace(b'document', b''):
                    e = '%s: output %r' % (name, show(r.out))
                elif not r.err and not r.out:
                    e = '%s: no message' % name
            else:
                if r.status or sorted(r.out.decode().splitlines()) != sorted(ok.splitlines()):
                    e = '%s: %s, got %r, expected %r' % (name, describe(r.status), show(r.out), ok)
            if not e and set(after) - {'in file.txt', 'bad.tmx', 'mem.tmx'}:
                e = '%s: files created %s' % (name, sorted(after))
            report(w, None, argv, b'doc\n', r, left, e)
            if w.enough:
                return

    def gen3():
        d = ['-d', '$D/data']
        pre = [[], ['-u'], ['-a', '-n'], ['-f', 'html'], ['-f', 'docx'], ['-f', 'latex'], ['-f', 'none'], ['-z', '-H'], ['-m', 'mem.tmx'], ['-fline']]
        for p in pre:
            yield 'no direction', d + p, None
            yield 'too many arguments', d + p + ['x-y', 'in file.txt', 'out.txt', 'more'], None
            yield 'too many arguments', ['x-y', 'in file.txt', 'out.txt', 'more'] + d + p, None
            yield 'input missing', d + p + ['x-y', 'nosuchfile'], None
            yield 'input missing', ['x-y'] + d + p + ['nosuchfile', 'out.txt'], None
            yield 'mode missing', d + p + ['x-q'], None
            yield 'mode missing', ['x-q'] + d + p, None
            yield 'mode missing', d + p + ['x-q', 'in file.txt', 'out.txt'], None
            yield 'mode missing', d + p + ['y', 'in file.txt', 'out.txt'], None
            yield 'no modes', p + ['x-y'], None
            yield 'no modes', ['-d', '$D/empty'] + p + ['x-y'], None
            yield 'no modes', ['-d', '$D/nowhere'] + p + ['x-y', 'in file.txt'], None
            for o in 'qxQ0':
                yield 'unknown option', d + p + ['-' + o, 'x-y'], None
                yield 'unknown option', ['x-y'] + d + p + ['-' + o], None
            for o in 'fdmo':
                yield 'argument missing', d + p + ['-' + o], None
                yield 'argument missing', ['x-y', 'in file.txt'] + d + p + ['-' + o], None
            yield 'bad memory', d + p + ['-m', 'bad.tmx', 'x-y'], None
            yield 'bad memory', d + p + ['-m', 'bad.tmx', '-o', 'a-b', 'x-y', 'in file.txt', 'out.txt'], None
            yield 'list', d + p + ['-l'], '  x-y\n  x-y-tagger\n  x-z\n'
            yield 'list', p + ['-l'] + d, '  x-y\n  x-y-tagger\n  x-z\n'
            yield 'list', ['x-y'] + d + p + ['-l'], '  x-y\n  x-y-tagger\n  x-z\n'
            yield 'version', p + ['-V'], VERSION + '\n'
            yield 'version', d + p + ['-V', 'x-y'], VERSION + '\n'
            if p not in (['-f', 'html'], ['-f', 'docx'], ['-f', 'none'], ['-fline']):
                for f in ('latex', 'latex-raw'):
                    yield 'not UTF-8', d + p + ['-f', f, 'x-y'], None
            yield 'help', d + p + ['-h'], None
        for f in sorted(ARCH):
            for o in ([], ['-u'], ['-n', '-a']):
                for a in (['x-y'], ['x-y', 'in file.txt']):
                    yield 'not an archive', d + o + ['-f', f] + a, None
    ctx.parallel('other requests', gen3, bad, 4)
