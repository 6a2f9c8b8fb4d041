"""P38: apertium-unformat gives what the translator of the format would be given."""
import io, itertools as it, os, re, shutil, subprocess, zipfile
import build
import p28
from core import describe, show, Res
from p28 import mark

XML = '<?xml version="1.0"?>\n<x>a\nb</x>'
# members, those with text, those that may not be read; deformatter
ARCH = {
    'odt': ({'content.xml': XML, 'meta.xml': XML, 'ObjectReplacements/x': 'y', 'mimetype': 'm', 'Pictures/content.xml.png': 'P'}, ['content.xml'], ['mimetype', 'Pictures/content.xml.png', 'ObjectReplacements/x'], 'odt'),
    'docx': ({'word/document.xml': XML, 'word/settings.xml': XML, 'word/header1.xml': XML.replace('a', 'h'), 'word/foot notes.xml': XML.replace('a', 'f'), 'docProps/app.xml': XML, '[Content_Types].xml': XML, 'word/theme/t.xml': XML, 'word/media/i.png': 'P',
              'word/_rels/document.xml.rels': XML, 'xml/image.png': 'P', 'word/fontTable.xml': XML}, ['word/document.xml', 'word/header1.xml', 'word/foot notes.xml'], ['word/settings.xml', 'docProps/app.xml', 'word/theme/t.xml', 'word/media/i.png', 'word/_rels/document.xml.rels', 'xml/image.png', 'word/fontTable.xml'], 'wxml'),
    'pptx': ({'ppt/slides/slide1.xml': XML, 'ppt/slides/slide22.xml': XML.replace('a', 'c'), 'ppt/slides/_rels/slide1.xml.rels': XML, 'ppt/other.xml': XML}, ['ppt/slides/slide1.xml', 'ppt/slides/slide22.xml'], ['ppt/other.xml', 'ppt/slides/_rels/slide1.xml.rels'], 'pptx'),
    'xlsx': ({'xl/sharedStrings.xml': XML, 'xl/workbook.xml': XML}, ['xl/sharedStrings.xml'], ['xl/workbook.xml'], 'xlsx'),
}
PLAIN = ['', 'txt', 'html', 'html-noent', 'html-alt', 'rtf', 'mediawiki', 'wxml', 'xpresstag']
INP = ['a b\n', '', 'ab', 'a\nb [\nc</CONTENTS-noeos>\n', 'é b\\$1\n', 'a\0b']


def pack(ents):
    s = io.BytesIO()
    with zipfile.ZipFile(s, 'w') as z:
        for n, t in ents.items():
            z.writestr(n, t)
    return s.getvalue()


class Box(p28.Box):
    def __init__(self, ctx, d):
        super().__init__(ctx, d)
        self.script = d + '/bin/apertium-unformat'
        open(self.script, 'w', encoding='utf8').write('#!/usr/bin/env bash\nAPERTIUM_PATH="${APERTIUM_PATH:-/usr/local/bin}"\n' + open(build.SRC + '/apertium-unformat-header.sh', encoding='utf8').read())
        os.chmod(self.script, 0o755)
        # what the environment holds must not matter
        open(d + '/bin/apertium', 'w').write('#!/bin/sh\necho apertium >> "$STUB_LOG"\ncat\n')
        os.chmod(d + '/bin/apertium', 0o755)
        self.own()

    def run(self, c, argv, doc, files={}):
        """standard output is a file that already holds something and to which is appended"""
        cwd, tmpd, so = self.d + '/cwd', self.d + '/' + c.tmpd, self.d + '/so'
        for f in os.listdir(cwd):
            os.unlink(cwd + '/' + f)
        for f, t in files.items():
            open(cwd + '/' + f, 'wb').write(t)
        for p, t in ((so, EARLIER), (self.d + '/si', doc), (self.d + '/log', b'')):
            open(p, 'wb').write(t)
        self.own()
        env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'APERTIUM_PATH': self.d + '/bin', 'TMPDIR': tmpd, 'STUB_LOG': self.d + '/log', 'HOME': cwd, 'BORRAFICHERO': 'true', 'FORMAT': '', 'DIRECTORY': 'x'}
        kw = dict(user=self.user.pw_uid, group=self.user.pw_gid, extra_groups=[]) if self.user else {}
        with open(so, 'ab') as o, open(self.d + '/si', 'rb') as i:
            try:
                p = subprocess.run(['bash', self.script] + argv, stdin=i, stdout=o, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=60, **kw)
                st, err = (p.returncode << 8 if p.returncode >= 0 else -p.returncode), p.stderr
            except subprocess.TimeoutExpired as e:
                st, err = 9, e.stderr or b''
        out = open(so, 'rb').read()
        lost = not out.startswith(EARLIER)
        left = [f for f in os.listdir(tmpd) if c.tmpd != 'cwd' or f.startswith('apertium.')]
        for f in left:
            p = tmpd + '/' + f
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        after = {f: open(cwd + '/' + f, 'rb').read() for f in os.listdir(cwd)}
        return Res(st, out[len(EARLIER):] if not lost else out, err), left, open(self.d + '/log').read().split(), after, lost


EARLIER = b'EARLIER\n'


class Case(p28.Case):
    D = dict(fmt='', args=1, order=0, inp=0, tmpd='tmp', arch='', datadir='', sv='', tf='', prefs='')

    def argv(self, sub):
        o = (['-f', self.fmt] if self.order == 0 else ['-f' + self.fmt] if self.order == 1 else ['-f', self.fmt, '--'] if self.order == 2 else ['-f', 'txt', '-f', self.fmt]) if self.fmt else ['--'] if self.order == 2 else []
        return o + [sub['in']] * (self.args > 1) + [sub['out']] * (self.args > 2)


def run(ctx):
    ctx.rule = 'every format, way of naming input and output, spelling of the option, place for temporary files and small document or archive: the real script with recording stand-ins for the tools; what it writes, its exit status, other files written and files left are compared with the declared pipeline'
    ctx.stub = ctx.scratch + '/stub'
    build.run(['gcc', '-O1', '-o', ctx.stub, build.VERIF + '/lib/stub.c'])
    ctx.wbm = ctx.stub
    os.chmod(ctx.scratch, 0o755)

    def box(w):
        if not hasattr(w, 'ubox'):
            d = '%s/ubox%d' % (ctx.scratch, w.k)
            if os.path.exists(d):
                shutil.rmtree(d)
            w.ubox = Box(ctx, d)
        return w.ubox

    def report(w, argv, doc, r, left, e, more=''):
        if not e and left:
            e = 'temporary files left: %s' % len(left)
        w.states += 1
        w.trans += len(argv)
        w.n += 1
        w.seen(r.out, r.status)
        if e:
            w.fail('apertium-unformat', [a.replace(w.ubox.d, '$T') for a in argv], doc, r, e + more)

    def common(c, sub, r, files, after):
        if r.status:
            return describe(r.status)
        if c.args > 2 and r.out:
            return 'output on standard output although a file was named'
        if set(after) - set(files) - ({sub['out']} if c.args > 2 else set()) or any(after.get(f) != files[f] for f in files):
            return 'files changed: %s' % sorted(after)

    def one(w, c):
        b = box(w)
        sub = b.sub
        argv = c.argv(sub)
        files = {}
        if c.fmt in ARCH:
            ents, text, never, tool = ARCH[c.fmt]
            ents = dict(ents)
            if c.arch == 'embedded':
                ents['word/embeddings/e 1.xlsx'] = pack(ARCH['xlsx'][0])
            elif c.arch == 'text only':
                ents = {n: ents[n] for n in text}
            elif c.arch == 'no text':
                ents = {n: t for n, t in ents.items() if n not in text}
                text = []
            doc = pack(ents)
        else:
            doc = INP[c.inp].encode()
        if c.args > 1:
            files[sub['in']] = doc
        r, left, log, after, lost = b.run(c, argv, doc if c.args == 1 else b'ignored', files)
        got = after.get(sub['out'], b'') if c.args > 2 else r.out
        e = 'what standard output already held is lost' if lost else common(c, sub, r, files, after)
        if e:
            pass
        elif c.fmt in ARCH:
            seen = {}
            for l in got.split(b'\n'):
                m = re.match(rb'<file name="([^"]*?)"/>(.*)$', l)
                if not m:
                    if l and l != mark(b'\n', 'apertium-des' + tool)[:-1]:
                        e = e or 'neither text nor name: %r' % show(l)
                    continue
                n = re.sub(r'^.*?apertium\.\w{8}/(\./)?', '', m.group(1).decode())
                if n in seen:
                    e = e or 'given twice: ' + n
                seen[n] = m.group(2)
            for n in text:
                x = mark(b' ' + XML.encode().replace(b'\n', b' ').replace(b'<x>a', b'<x>' + re.search('<x>(.)', ents[n]).group(1).encode()), 'apertium-des' + tool)
                if n not in seen:
                    e = e or 'text left out: ' + n
                elif seen[n].strip() != x.strip():
                    e = e or '%s: got %r, expected %r' % (n, show(seen[n]), show(x))
            for n in seen:
                if n in never or n not in ents:
                    e = e or 'not text: ' + n
            if not e and 'apertium-des' + tool not in log:
                e = 'tools run: %s' % log
            if 'apertium' in log:
                e = e or 'the translator is called'
        else:
            infile = sub['in'] if c.args > 1 else '/dev/stdin'
            if c.fmt == 'latex':
                d = mark(mark(mark(doc, 'apertium-prelatex', infile), 'apertium-utils-fixlatex'), 'apertium-deslatex')
            else:
                d = mark(doc, 'apertium-des' + {'': 'txt', 'html-noent': 'html'}.get(c.fmt, c.fmt), infile)
            if got.replace(b'|TMP}', ('|%s}' % infile).encode()) != d:
                e = 'got %r, expected %r' % (show(got), show(d))
        report(w, argv, doc if c.fmt not in ARCH else b'(archive)', r, left, e, ' (settings %s)' % {k: v for k, v in vars(c).items() if v != Case.D.get(k)})

    def fn(w, blk):
        for c in blk:
            one(w, c)
            if w.enough:
                return

    def gen():
        tm = ['tmp', 'my settings rels'] if ctx.quick else ['tmp', 'my settings rels', 'cwd']
        for f, a, o, t in it.product(PLAIN + ['latex'] + sorted(ARCH), (1, 2, 3), (0, 1, 2, 3), tm):
            if t == 'cwd' and a == 1:
                continue
            if f in ARCH:
                for x in ['', 'text only', 'no text'] + ['embedded'] * (f == 'docx'):
                    yield Case(fmt=f, args=a, order=o, tmpd=t, arch=x)
            else:
                for i in range(len(INP)):
                    yield Case(fmt=f, args=a, order=o, tmpd=t, inp=i)
    ctx.parallel('documents', gen, fn, 4)

    def bad(w, blk):
        for name, argv, doc in blk:
            b = box(w)
            files = {'in file.txt': doc}
            r, left, log, after, lost = b.run(Case(), argv, doc, files)
            e = None
            if lost:
                e = name + ': what standard output already held is lost'
            elif r.status == 0:
                e = name + ': succeeds'
            elif os.WIFSIGNALED(r.status):
                e = '%s: %s' % (name, describe(r.status))
            elif not r.err and not r.out:
                e = name + ': no message'
            elif log and name not in ('not an archive',):
                e = '%s: tools run: %s' % (name, log)
            elif after.get('in file.txt') != doc or set(after) - set(files) - {'out.txt'}:
                e = '%s: files changed' % name
            elif 'out.txt' in after and name not in ('unknown format', 'not an archive'):
                e = '%s: output written' % name
            report(w, argv, doc, r, left, e)
            if w.enough:
                return

    def gen2():
        for f in ([], ['-f', 'txt'], ['-f', 'html'], ['-f', 'odt'], ['-f', 'docx'], ['-f', 'latex'], ['-frtf']):
            yield 'too many arguments', f + ['in file.txt', 'out.txt', 'more'], b'doc\n'
            yield 'input missing', f + ['nosuch'], b'doc\n'
            yield 'input missing', f + ['nosuch', 'out.txt'], b'doc\n'
            for o in 'qxu0':
                yield 'unknown option', f + ['-' + o], b'doc\n'
                yield 'unknown option', f + ['-' + o, 'in file.txt', 'out.txt'], b'doc\n'
            yield 'argument missing', f + ['-f'], b'doc\n'
        for p in ([], ['in file.txt'], ['in file.txt', 'out.txt']):
            for f in ('nosuch', 'txt2', 'x y'):
                yield 'unknown format', ['-f', f] + p, b'doc\n'
            for f in sorted(ARCH):
                for d in (b'doc\n', b'', pack({'a': 'b'})[:-30]):
                    yield 'not an archive', ['-f', f] + p, d
    ctx.parallel('requests that cannot be served', gen2, bad, 4)
