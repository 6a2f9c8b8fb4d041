"""Builds what a check needs from /repo's current working tree into a scratch
directory (removed by the caller).  Objects are cached, content-addressed, in
/verif/.cache so that repeated local runs are fast; the key covers the source,
every header of the tree, and the flags, so a stale object can never be used."""
import hashlib, os, threading, re, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + '/apertium'
CACHE = os.environ.get('VERIF_CACHE', VERIF + '/.cache/obj')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
ENV = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8')
for k in ('CFLAGS', 'CXXFLAGS', 'CPPFLAGS', 'LDFLAGS', 'LD_LIBRARY_PATH'):
    ENV.pop(k, None)
BASE = ['-std=c++23', '-O1', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern', '-I' + REPO, '-I' + SRC,
        '-I' + VERIF + '/lib/config', '-I/usr/include/lttoolbox', '-I/usr/include/libxml2']
# files with recorded, unrepaired undefined behaviour (known_findings.txt) that is harmless in the shipped build
LAX = {'perceptron_spec.cc': ['-O2', '-U_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=uninitialized']}
LIBS = ['-llttoolbox', '-lxml2', '-licuio', '-licui18n', '-licuuc', '-licudata']


class BuildError(Exception):
    pass


def makefile():
    return open(SRC + '/Makefile.am', encoding='utf8').read().replace('\\\n', ' ')


def lib_sources():
    m = re.search(r'^cc_sources\s*=\s*(.*)$', makefile(), re.M)
    return [s for s in m.group(1).split() if s.endswith('.cc') and os.path.exists(SRC + '/' + s)]


def tool_sources(tool):
    m = re.search(r'^%s_SOURCES\s*=\s*(.*)$' % re.escape(tool.replace('-', '_')), makefile(), re.M)
    return [s for s in m.group(1).split() if s.endswith('.cc')] if m else [tool.replace('-', '_') + '.cc']


# generated scanners: tool -> (kind, source)
def generated(tool):
    mk = makefile()
    cc = tool_sources(tool)[0]
    m = re.search(r'^%s:[^\n]*\n((?:\t[^\n]*\n)+)' % re.escape(cc), mk, re.M)
    if not m:
        return None
    body = m.group(1)
    dep = re.search(r'^%s:\s*(\S+)' % re.escape(cc), mk, re.M).group(1)
    x = re.search(r'xsltproc\s+(\S+\.xsl)\s+(\S+)', body)
    if x:
        xml = dep if x.group(2) == '$<' else x.group(2)
        return ('xsl', x.group(1), xml)
    f = re.search(r'(\S+\.l)\b', body)
    if f:
        return ('flex', None, f.group(1))
    return None


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        hs = sorted(glob.glob(SRC + '/*.h')) + sorted(glob.glob(VERIF + '/lib/config/*.h'))
        _hdr = _hash(*[os.path.basename(f).encode() + b'\0' + open(f, 'rb').read()
                       for f in hs if os.path.basename(f) != 'apertium_config.h' or f.startswith(VERIF)])
    return _hdr


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-6000:]))
    return p.stdout


def cached(key, out, make):
    c = CACHE + '/' + key
    try:
        shutil.copyfile(c, out)
        os.utime(c)
        return
    except OSError:
        pass
    make()
    try:
        os.makedirs(CACHE, exist_ok=True)
        fd, t = tempfile.mkstemp(dir=CACHE)
        os.close(fd)
        shutil.copyfile(out, t)
        os.rename(t, c)
    except OSError:
        pass


class Builder:
    def __init__(self, scratch, sanitize=None):
        self.d = scratch
        self.flags = list(BASE)
        self.lflags = []
        if sanitize:
            self.flags += ['-fsanitize=' + sanitize, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
            self.lflags += ['-fsanitize=' + sanitize]
        self.pool = ThreadPoolExecutor(JOBS)
        self.lib = None
        self.lock = threading.Lock()
        self.done = {}

    def obj(self, path, name=None, flags=()):
        name = name or os.path.basename(path)
        out = '%s/%s.o' % (self.d, name.replace('/', '_'))
        with self.lock:
            ev = self.done.setdefault(out, threading.Lock())
        with ev:
            return self._obj(path, out, list(flags))

    def _obj(self, path, out, flags):
        if os.path.exists(out):
            return out
        fl = self.flags + flags + LAX.get(os.path.basename(path), [])
        key = _hash('obj', open(path, 'rb').read(), header_hash(), ' '.join(fl)) + '.o'
        cached(key, out, lambda: run(['g++'] + fl + ['-c', path, '-o', out]))
        return out

    def library(self):
        if self.lib is None:
            objs = list(self.pool.map(lambda s: self.obj(SRC + '/' + s, 'lib_' + s), lib_sources()))
            self.lib = self.d + '/libapertium.a'
            if os.path.exists(self.lib):
                os.unlink(self.lib)
            run(['ar', 'rcs', self.lib] + objs)
        return self.lib

    def gen_source(self, tool):
        g = generated(tool)
        out = '%s/gen_%s.cc' % (self.d, tool)
        if g[0] == 'xsl':
            lex = run(['xsltproc', SRC + '/' + g[1], SRC + '/' + g[2]])
        else:
            lex = open(SRC + '/' + g[2], 'rb').read()
        key = _hash('flex', lex) + '.cc'
        tmp = out + '.l'

        def mk():
            open(tmp, 'wb').write(lex)
            run(['flex', '-Cfer', '-o' + out, tmp])
        cached(key, out, mk)
        return out

    def main_objs(self, tool):
        if generated(tool):
            srcs = [self.gen_source(tool)]
        else:
            srcs = [SRC + '/' + s for s in tool_sources(tool)]
        objs = []
        for s in srcs:
            o = self.obj(s, 'main_%s_%s' % (tool, os.path.basename(s)))
            r = o[:-2] + '.r.o'
            run(['objcopy', '--redefine-sym', 'main=tool_main', o, r])
            objs.append(r)
        return objs

    def tool(self, tool):
        """fork-server binary around the tool's real main()"""
        out = '%s/fs_%s' % (self.d, tool)
        if os.path.exists(out):
            return out
        mo = self.main_objs(tool)
        fso = self.obj(VERIF + '/lib/fs.cc', 'fs')
        run(['g++'] + self.lflags + ['-o', out, fso] + mo + ([self.library()]) + LIBS)
        return out

    def tools(self, *tools):
        fl = any(not generated(t) for t in tools)
        self.library()
        return dict(zip(tools, self.pool.map(self.tool, tools)))

    def binary(self, tool):
        """plain executable of the tool (ordinary main)"""
        out = '%s/%s' % (self.d, tool)
        srcs = [self.gen_source(tool)] if generated(tool) else [SRC + '/' + s for s in tool_sources(tool)]
        objs = [self.obj(s, 'main_%s_%s' % (tool, os.path.basename(s))) for s in srcs]
        run(['g++'] + self.lflags + ['-o', out] + objs + [self.library()] + LIBS)
        return out

    def harness(self, src, name, extra=()):
        out = '%s/%s' % (self.d, name)
        o = self.obj(src, 'h_' + name)
        run(['g++'] + self.lflags + ['-o', out, o] + list(extra) + [self.library()] + LIBS)
        return out
