#!/usr/bin/env python3
"""mutate.py FILE[:CHECKS] ... [-n N] [-s SEED]: finds blind spots of the checks.

Applies one small change at a time to a private copy of /repo, runs the listed checks
(quick) until one catches it, and for those nobody catches runs the repository's tests;
what survives both is printed for a look by hand."""
import os, re, random, subprocess, sys, shutil, time
MAP = {
    'latex_accentsmap.cc': 'P36', 'apertium-prelatex.l': 'P36', 'apertium-postlatex.l': 'P36', 'apertium-postlatex-raw.l': 'P36',
    'pretransfer.cc': 'P01', 'apertium_posttransfer.cc': 'P14 P02 P34', 'apertium_cleanstream.cc': 'P14', 'wblank-attach.cc': 'P13', 'wblank-detach.cc': 'P13',
    'transfer_base.cc': 'P05 P02 P03 P07 P08 P04 P06 P29 P33', 'transfer.cc': 'P05 P07 P08 P02 P03 P04 P06 P29 P33', 'interchunk.cc': 'P09 P02 P03 P07 P08 P05 P29 P33',
    'postchunk.cc': 'P10 P02 P03 P07 P08 P05 P29 P33', 'transfer_data.cc': 'P06 P04 P05 P03', 'transfer_regex.cc': 'P06 P05', 'trx_reader.cc': 'P04 P03 P05 P10 P06 P32 P31', 'transfer_word.cc': 'P06 P05 P08',
    'interchunk_word.cc': 'P09 P06 P08', 'transfer_instr.cc': 'P05', 'apertium_re.cc': 'P06 P05', 'caps_restorer.cc': 'P12 P02 P29', 'caps_compiler.cc': 'P12 P32', 'apertium_extract_caps.cc': 'P12 P02 P29 P34',
    'gen_modes.cc': 'P15', 'wblank-mode.cc': 'P16', 'adapt_docx.cc': 'P26 P34', 'hmm.cc': 'P17 P35 P23 P21 P22 P02', 'lswpost.cc': 'P18 P23 P21 P22 P02', 'tagger.cc': 'P21 P23 P22 P02 P19 P20 P34', 'tagger_utils.cc': 'P17 P23 P18 P22 P11',
    'tagger_word.cc': 'P11 P17 P18 P21 P23', 'tagger_data.cc': 'P11 P22 P17', 'tagger_data_hmm.cc': 'P22 P17', 'tagger_data_lsw.cc': 'P22 P18', 'collection.cc': 'P22 P17', 'constant_manager.cc': 'P22 P11', 'endian_double_util.cc': 'P22',
    'tsx_reader.cc': 'P11 P17 P18 P22 P23 P32', 'file_morpho_stream.cc': 'P11 P17 P18 P21 P02 P29 P34', 'unigram_tagger.cc': 'P19 P21 P02', 
    'stream.cc': 'P19 P20 P21 P02 P29', 'analysis.cc': 'P19 P20', 'morpheme.cc': 'P19 P20 P29', 'stream_tagger.cc': 'P19 P20 P21 P02', 'sentence_stream.cc': 'P20 P21 P02', 'perceptron_tagger.cc': 'P20 P21',
    'feature_vec.cc': 'P20', 'feature_vec_averager.cc': 'P20', 'mtx_reader.cc': 'P20 P32 P31', 'perceptron_spec.cc': 'P20', 'file_tagger.cc': 'P21 P20', 'lemma.cc': 'P19 P20', 'a.cc': 'P19', 'i.cc': 'P19', 'shell_utils.cc': 'P20 P19', 'xml_reader.cc': 'P11 P20 P32',
    'tagger_flags.cc': 'P21', 'linebreak.cc': 'P01', 'apertium-header.sh': 'P28', 'serialiser.h': 'P19 P20', 'deserialiser.h': 'P19 P20', 'tagger_data_percep_coarse_tags.cc': 'P20 P22', 'transferpp.cc': 'P05', 'transfer_token.cc': 'P05 P09 P10', 'apertium_interchunk.cc': 'P09 P34', 'apertium_postchunk.cc': 'P10 P34', 'apertium_pretransfer.cc': 'P01 P02 P34', 'apertium_perceptron_trace.cc': 'P20', 'align.cc': 'P20', 'tagger_data.h': 'P22',
    'apertium_restore_caps.cc': 'P12 P34', 'apertium_tagger.cc': 'P21 P34', 'apertium_transfer.cc': 'P05 P34', 'deformat.xsl': 'P25 P24', 'reformat.xsl': 'P24', 'morpho_stream.cc': 'P11', 'apertium_compile_caps.cc': 'P12 P34', 'apertium_filter_ambiguity.cc': 'P30 P34', 'apertium_tagger_readwords.cc': 'P30 P34', 'apertium_tagger_apply_new_rules.cc': 'P30 P34', 'tmx_builder.cc': 'P27', 'tmx_alignment.cc': 'P27', 'tmx_aligner_tool.cc': 'P27', 'tmx_book_to_matrix.cc': 'P27', 'tmx_trail_postprocessors.cc': 'P27', 'tmx_translate.cc': 'P27', 'apertium_tmxbuild.cc': 'P27 P34', 'tmx_dictionary.cc': 'P27'}
OPS = [(r'<=', '<'), (r'(?<![<>-])>=', '>'), (r'(?<![<a-z_])<(?![<=a-zA-Z:/])', '<='), (r'(?<![->a-zA-Z])>(?![>=:(.,;&*])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\+ 1\b', ''), (r'- 1\b', ''), (r'\+\+', '--'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+=', '='), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '1'), (r'!(?=[a-z(])', ''),
       (r'\bbreak;', ';'), (r'\bcontinue;', ';')]
STMT = re.compile(r'^\s*(?!return|break|case|default|else|using|typedef|const |auto |int |size_t |bool |UString |string |std::|xmlNode|static|public|private|#|\}|\{|//|\*|/\*)[\w\->.:\[\]()*]+.*;\s*(//.*)?$')


def mutants(text):
    L = text.split('\n')
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(('//', '*', '#', '/*', 'using', 'namespace')) or 'cerr' in l or 'exit(' in l or 'assert' in l or 'throw' in l or 'wcerr' in l or 'include' in l:
            continue
        if STMT.match(l):
            yield i, re.match(r'^\s*', l).group() + ';', 'delete'
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                q = code[:m.start()].count('"')
                if q % 2 or code[:m.start()].count("'") % 2 or re.search(r'template|operator|vector<|map<|set<|pair<|#|for \(.*: ', code):
                    continue
                yield i, l[:m.start()] + b + l[m.end():], '%s -> %s' % (m.group(), b)


def main():
    av = sys.argv[1:]
    n, seed, files, skip = 20, 1, [], 0
    while av:
        a = av.pop(0)
        if a == '-n':
            n = int(av.pop(0))
        elif a == '-s':
            seed = int(av.pop(0))
        else:
            files.append(a)
    W = '/tmp/mut%d' % os.getpid()
    shutil.copytree('/repo', W, symlinks=True)
    env = dict(os.environ, VERIF_REPO=W, VERIF_EVIDENCE=W + '.ev', VERIF_MAXV='1')
    for f in files:
        f, _, ck = f.partition(':')
        ck = (ck or MAP[f]).replace(',', ' ').split()
        p = W + '/apertium/' + f
        orig = open(p).read()
        ms = list(mutants(orig))
        random.Random(seed).shuffle(ms)
        L = orig.split('\n')
        done = 0
        for i, new, what in ms:
            if done >= n:
                break
            M = list(L)
            M[i] = new
            open(p, 'w').write('\n'.join(M))
            if f.endswith(('.cc', '.h')):
                r = subprocess.run(['g++', '-std=c++23', '-fsyntax-only', '-w', '-I' + W, '-I' + W + '/apertium', '-I/verif/lib/config', '-I/usr/include/lttoolbox', '-I/usr/include/libxml2', p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode:
                    continue
            done += 1
            t0 = time.time()
            got = None
            for c in ck:
                r = subprocess.run(['timeout', '600', 'python3', '/verif/bin/check.py', c, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    got = c if b'\nVIOLATION' in r.stdout else c + '(rc %d)' % r.returncode
                    break
            if got is None:
                d = subprocess.run(['diff', '-u', '/repo/apertium/' + f, p], stdout=subprocess.PIPE).stdout.decode()
                open(W + '.patch', 'w').write(d.replace('/repo/apertium/', 'a/apertium/').replace(p, 'b/apertium/' + f))
                r = subprocess.run(['bash', '/verif/meta/muttest.sh', W + '.patch'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                got = {0: 'SURVIVES', 1: 'tests', 2: 'build'}.get(r.returncode, 'error %s' % r.stdout[-300:])
            print('%-9s %s:%d [%s] %s   (%ds)' % (got, f, i + 1, what, L[i].strip()[:110], time.time() - t0), flush=True)
        open(p, 'w').write(orig)
    shutil.rmtree(W)


main()
