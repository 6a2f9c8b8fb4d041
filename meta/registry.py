#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state])))


A = 'apertium/'
prop('P01', 'Pretransfer splits joined words and moves queues, and changes nothing else',
     'For every well-formed analysed stream, pretransfer turns each joined lexical unit (parts separated by "+" after tags) into separate units with one space between them, each carrying the word-bound blank of the original; an invariable queue ("#...") is moved from the end of the tags of the (joined) unit to just after its first lemma. Everything else (blanks, superblanks, escaped characters, units without joins, tags and their order) is copied unchanged; -n additionally removes surface forms, and -e treats a "~" after tags as a join as well, whose parts follow each other without a space.',
     ['inputs'], 'all token sequences up to the bound over an alphabet of unit pieces (lemma characters, tags, +, #, ~, /, escapes), blanks, superblanks, word-bound blanks and flush marks, times all option combinations',
     'Tests cover a handful of units; the interaction of joins, queues, escapes, readings, blanks and options is combinatorial.',
     [A + 'pretransfer.cc', A + 'apertium_pretransfer.cc'], [('unit splitter', 'pretransfer.cc'), ('stream walker', 'pretransfer.cc')])
prop('P02', 'Null-flushed documents are processed independently of their history',
     'With null flushing, every stream tool that supports it (pretransfer, posttransfer, transfer, interchunk, postchunk, tagger, capitalisation and word-bound-blank tools) produces for a document ended by a null byte exactly the bytes it produces for that document alone in a fresh process (also when the end of the input takes the place of the null byte), followed by exactly one null byte and flushed before the next document is needed. No variable, buffered word, blank or learned state of an earlier document changes a later one.',
     ['histories', 'inputs'], 'all ordered sequences of up to 3 (thorough: 4) documents drawn from a set that exercises every stateful feature of each tool, and all ordered pairs played over pipes',
     'A leak shows only for particular pairs of successive documents; tests run documents in isolation or one fixed pair.',
     [A + f for f in ('pretransfer.cc', 'apertium_posttransfer.cc', 'transfer_base.cc', 'transfer.cc', 'interchunk.cc', 'postchunk.cc', 'hmm.cc', 'lswpost.cc', 'sentence_stream.cc', 'unigram_tagger.cc', 'stream_tagger.cc', 'caps_restorer.cc', 'wblank-attach.cc', 'wblank-detach.cc')],
     [('per-document reset', 'transfer_base.cc, transfer.cc, interchunk.cc, postchunk.cc'), ('tagger flush handling', 'hmm.cc, stream_tagger.cc, sentence_stream.cc')],
     [('rule variables', 'values set by let in transfer rules', 'transfer_base.h'), ('pending words/blanks', 'tokens read ahead of the match', 'transfer_base.h')])
prop('P03', 'Transfer picks the longest match, the earliest rule on ties, left to right',
     'At every position of the word sequence, transfer, interchunk and postchunk apply the rule whose pattern matches the longest run of words starting there, the first such rule in the file when several match equally long; after it the scan resumes just behind the matched words. (A later rule with literally the same pattern as an earlier one is never used.) A rule that rejects itself is treated as absent at that position, and a word that starts no match is passed on by the stage\'s default action exactly once.',
     ['programs', 'inputs'], 'all rule sets up to the bound over patterns of 1 to 3 word classes (with optional self-rejection) times all word sequences up to the bound',
     'Which rule wins depends on the whole rule set and on look-ahead past the end of a match; tests run one rule file on a few sentences.',
     [A + 'transfer_base.cc', A + 'transfer.cc', A + 'interchunk.cc', A + 'postchunk.cc', A + 'trx_reader.cc'],
     [('matcher loop', 'transfer_base.cc'), ('rule compilation with priorities', 'trx_reader.cc'), ('rejection bookkeeping', 'transfer_base.cc')],
     [('banned rules', 'rules rejected at this position', 'transfer_base.h')])
prop('P04', 'A word class matches exactly the words its items describe',
     'A pattern item in a transfer rule matches a word if and only if one of the listed items does: the lemma, if given, equals the word\'s lemma (in lower case; this lemma is lower-cased before comparison), "*" in it standing for one or more characters, and the tag sequence matches with "*" (or several in a row) standing for any run of one or more tags and the end anchored. Case of the first letter, unknown tags, extra tags, escaped characters and target-language readings never make a different word match.',
     ['programs', 'inputs'], 'all class definitions over tag sequences with wildcards up to the bound times all words up to the bound',
     'Tests use a few classes; the compiled automaton mixes all classes of all rules, so a wrong arc shows only on particular combinations.',
     [A + 'trx_reader.cc', A + 'transfer_base.cc', A + 'transfer_data.cc'], [('pattern automaton construction', 'trx_reader.cc'), ('word stepping', 'transfer_base.cc')])
prop('P05', 'Transfer rule actions mean what the rule language says',
     'For every rule program and every matched input, the output equals that of a direct interpretation of the rule text: conditions (and, or, not, equality, prefix, suffix, containment, list membership, case-insensitive variants), choose/when/otherwise order, variables, let, append, modify-case, macros with positional arguments, concatenation, literals, clips on both sides, case functions and output nodes. Evaluation has no effects other than those the rule text states.',
     ['programs', 'inputs'], 'all action programs generated by a bounded grammar covering every instruction and operand kind, run on all words of a bounded set',
     'The number of instruction/operand combinations is far beyond example tests, and cached evaluation makes an error depend on what ran before.',
     [A + 'transfer.cc', A + 'transfer_base.cc', A + 'transfer_data.cc', A + 'interchunk.cc', A + 'postchunk.cc', A + 'transfer_instr.cc'],
     [('instruction interpreters', 'transfer.cc, transfer_base.cc'), ('evaluation cache', 'transfer_base.h')])
prop('P06', 'An attribute clip selects and replaces exactly the listed tag sequence',
     'For every attribute definition, reading the attribute of a word yields the first (longest among those listed, ignoring case) tag sequence of the definition occurring in the word\'s tags, and the empty string if none occurs; assigning it replaces precisely that part and nothing else. The predefined parts (whole, lemma, lemma head, queue, tags) split every word (of unescaped text) without loss, and the compiled form of the definition selects the same as the definition itself.',
     ['programs', 'inputs'], 'all attribute definitions of up to three tag sequences over a small tag alphabet whose names are prefixes of one another, times all words with up to four tags',
     'Definitions are compiled into optimised regular expressions; errors appear only for overlapping or prefix-related tag lists.',
     [A + 'transfer_regex.cc', A + 'transfer_data.cc', A + 'apertium_re.cc', A + 'transfer_word.cc', A + 'interchunk_word.cc'],
     [('regex optimisation', 'transfer_regex.cc'), ('part matching and replacement', 'apertium_re.cc')])
prop('P07', 'Formatting blanks pass through transfer exactly once and in order',
     'Whatever rules apply, every superblank and every other formatting blank of the input appears in the output of transfer, interchunk and postchunk exactly once and in the input order; no rule can lose, duplicate or reorder document formatting. Where a rule outputs more blank positions than it matched, plain spaces are used; escaped text outside words is likewise kept byte for byte.',
     ['inputs', 'programs'], 'all sequences of words, blanks, superblanks, nested word-bound blanks and escapes up to the bound, for rule sets that output fewer, equal or more blank positions than they match',
     'Loss of formatting depends on where matches begin and end relative to blanks; examples rarely put a distinct blank at every position.',
     [A + 'transfer_base.cc', A + 'transfer.cc', A + 'interchunk.cc', A + 'postchunk.cc'], [('blank queue', 'transfer_base.h, transfer.cc')],
     [('blank queue', 'blanks of the matched pattern not yet output', 'transfer_base.h')])
prop('P08', 'Word-bound blanks stay with the words they belong to',
     'A word-bound blank attached to an input word is attached by transfer, interchunk and postchunk to every output word produced from it, merged in order (separated by "; ") when the lemma of an output word is taken from several, directly or through a variable assigned from them, and to no word of another match; with a one-word match every output word gets it; a word passed by default keeps its own. Word-bound blanks are never output as free text.',
     ['inputs', 'programs'], 'all word sequences up to the bound with every subset of words carrying distinct word-bound blanks, for rules that drop, copy, swap and join words',
     'Inline formatting errors depend on the combination of rule shape and which words carry blanks.',
     [A + 'transfer_base.cc', A + 'transfer.cc', A + 'interchunk.cc', A + 'postchunk.cc', A + 'pretransfer.cc'], [('word-bound blank merging', 'transfer_base.cc')])
prop('P09', 'Interchunk moves and edits chunks without touching their contents',
     'Interchunk outputs the lemma, tags and contents of chunks exactly as its rules compute them: chunks that start no match are copied verbatim, and a chunk\'s contents are copied byte for byte wherever a rule outputs them, whatever escapes, blanks, superblanks or word-bound blanks they contain.',
     ['inputs', 'programs'], 'all sequences of chunks up to the bound with contents drawn from all content token sequences up to the bound, for rules that copy, swap, merge and edit chunks',
     'Contents are re-read character by character; an unusual content token breaks them only in particular states.',
     [A + 'interchunk.cc', A + 'interchunk_word.cc'], [('chunk reader', 'interchunk.cc')])
prop('P10', 'Postchunk resolves numbered tags, case and defaults for every chunk',
     'For a chunk without a matching rule, postchunk outputs its words and blanks in order, with each numbered tag replaced by the chunk tag of that position (and removed if there is none), the first word capitalised or the whole chunk upper-cased as the chunk lemma demands, and all other tags, readings and escapes unchanged. Chunks named in a rule are rewritten by that rule with the same resolved words.',
     ['inputs'], 'all chunks up to the bound over lemma case, number of chunk tags, word tags (numbered in and out of range, plain) and inner blanks',
     'Numbering, case and blank positions interact; tests use one or two chunks.',
     [A + 'postchunk.cc', A + 'transfer_base.cc'], [('unchunking', 'postchunk.cc'), ('tag reference substitution', 'postchunk.cc')])
prop('P11', 'Every analysis gets the coarse tag and every word the readings its definition assigns',
     'For every tagger definition and every word, each analysis of the word is divided at "+" into the longest units from the left that some coarse tag describes (or a declared sequence of several parts), and each unit gets the first-declared coarse tag whose items match it: lemma (if given) in lower case, tags in order with "*" standing for one or more tags; what nothing describes counts as unknown. Of analyses with the same coarse tag the one selected by a preference rule is output (otherwise the first), and discard rules remove matching analyses in order but never the last one.',
     ['programs', 'inputs'], 'all definitions up to the bound of coarse tags, multi-part tags, preferences and discards over a small tag alphabet times all words built from up to three analyses of up to three parts',
     'Which coarse tag wins depends on the whole definition and on how the parts of a compound can be grouped; tests use a few definitions.',
     [A + 'tsx_reader.cc', A + 'file_morpho_stream.cc', A + 'tagger_word.cc', A + 'morpho_stream.cc', A + 'tagger_data.cc'],
     [('pattern compilation', 'tsx_reader.cc'), ('analysis splitting', 'file_morpho_stream.cc'), ('preference and discard', 'tagger_word.cc')])
prop('P12', 'Capitalisation is recorded with every word and restored as the rules vote',
     'Extracting capitalisation puts in front of every word a mark c:S/L, behind its other word-bound blanks, with the case class (lower, title, upper) of its surface form and of the lemma of its first analysis, keeps only that analysis (with -s the surface form too) and leaves everything else as it was. On restoring, every stretch of consecutive words in a document that a rule matches adds the rule\'s weight (once per place where it ends) to the case it selects for each of its words; each word is output in the case with the greatest total (on ties: as in the dictionary, lower, title, upper), words without votes unchanged, blanks in place, and word-bound blanks kept around the word (without the capitalisation marks, unless -k).',
     ['inputs', 'programs'], 'all words over every case shape; all match descriptions times all words; all rule sets up to the bound (sequences, alternatives, repetitions, document start, weights) times all word sequences up to the bound',
     'The result depends on overlaps of competing rules and on case shapes that examples do not combine.',
     [A + 'apertium_extract_caps.cc', A + 'caps_compiler.cc', A + 'caps_restorer.cc', A + 'apertium_restore_caps.cc'], [('rule automaton', 'caps_compiler.cc'), ('restorer', 'caps_restorer.cc')])
prop('P13', 'Word-bound blanks attach to words and detach again without loss',
     'Attaching turns inline markup spans "[[t:...]]...[[/]]" into one word-bound blank before every word inside the span, nested spans giving the concatenation outer to inner, and leaves every other byte unchanged; detaching moves the closing mark to directly behind the word so that each word is enclosed by its own span. Words outside spans receive no mark.',
     ['inputs'], 'all token sequences up to the bound over opening and closing marks, words, text, escapes, superblanks and null flushes',
     'Nesting and adjacency of marks, escapes and flushes is combinatorial.',
     [A + 'wblank-attach.cc', A + 'wblank-detach.cc'], [('span stack', 'wblank-attach.cc')])
prop('P14', 'Cleanstream keeps exactly the words, posttransfer only squeezes spaces',
     'For every stream, cleanstream outputs exactly the lexical units in order, unaltered, separated as the chosen option says, dropping (or keeping, with the option) the blanks; posttransfer outputs its input with each run of plain spaces reduced to one space and nothing else altered.',
     ['inputs'], 'all byte sequences up to the bound over the reserved characters, spaces, letters, escapes, newline and null',
     'Escapes and brackets interact byte by byte.',
     [A + 'apertium_cleanstream.cc', A + 'apertium_posttransfer.cc'], [('filters', 'apertium_cleanstream.cc, apertium_posttransfer.cc')])
prop('P15', 'Generated mode files run the declared pipeline, debug modes its prefixes',
     'For every modes.xml, each installed (or, in development, every) mode gets one file whose pipeline lists the declared programs, options and files in order, files as absolute quoted paths under the right directory. For a mode with debugging, each step gets the modes named by its declared or conventional suffixes, which run exactly the steps up to and including it with the step\'s trace option, plus an "@" variant using the untrimmed analyser; an explicitly declared mode is never overwritten.',
     ['configurations'], 'all modes.xml files up to the bound over program kinds, suffix attributes, options, install/gendebug flags and name clashes, times tool options',
     'The naming convention and clash rules depend on combinations of steps and modes.',
     [A + 'gen_modes.cc'], [('mode expansion', 'gen_modes.cc')])
prop('P16', 'Mode rewriting only inserts the blank handlers and flush options',
     'Rewriting a mode inserts the word-bound-blank attacher right after the analyser and the detacher right before the generator (not when the mode has its own handlers, no detacher when capitalisation is restored by the mode), splits old-style transfer into lexical lookup and transfer, and with -z gives every program of the mode that lacks it the null-flush option; programs, arguments and their order are otherwise unchanged. Rewriting an already rewritten mode adds no further steps.',
     ['configurations'], 'all pipelines up to four steps over program kinds with and without -z, in all spacing variants',
     'Tests do not cover this tool at all; the conditions interact across the whole pipeline.',
     [A + 'wblank-mode.cc'], [('pipeline rewriting', 'wblank-mode.cc')])
prop('P17', 'The statistical tagger outputs a most probable tag sequence',
     'For every trained bigram model and every sentence, the sequence of tags chosen has maximal probability under the model among all sequences compatible with the word\'s analyses (and the open class for unknown words), decided independently between unambiguous anchor points. The decision depends only on the sentence and the model, not on earlier text.',
     ['inputs', 'configurations'], 'all sentences up to the bound over all ambiguity classes, for a family of models covering all orderings of the transition and emission weights',
     'A wrong path shows only for particular weight/ambiguity combinations; tests do not run the tagger on sentences.',
     [A + 'hmm.cc', A + 'tagger_data_hmm.cc', A + 'tagger_utils.cc', A + 'file_morpho_stream.cc', A + 'tagger_word.cc'], [('Viterbi tagging', 'hmm.cc')],
     [('open class', 'tags assumed for unknown words', 'tagger_data.h')])
prop('P18', 'The sliding-window tagger picks the most probable tag in each window',
     'For every sliding-window model and every sentence, each word receives a tag of its ambiguity class that maximises the sum, over tags of the words before and after it, of the model\'s weights; no weight of another position or sentence takes part.',
     ['inputs', 'configurations'], 'all sentences up to the bound over all ambiguity classes for a family of models',
     'As for the bigram tagger.',
     [A + 'lswpost.cc', A + 'tagger_data_lsw.cc'], [('window scoring', 'lswpost.cc')])
prop('P19', 'Unigram taggers choose the analysis with the highest model score',
     'After training on any tagged corpus, each of the three unigram models scores every analysis of a word exactly by its documented formula over the corpus counts and outputs an analysis with maximal score; training counts every analysis of the corpus once.',
     ['inputs', 'histories'], 'all corpora up to the bound over a small set of analyses times all ambiguous words over that set',
     'Rankings flip only for particular count combinations; tests do not train.',
     [A + 'unigram_tagger.cc', A + 'a.cc', A + 'i.cc', A + 'lemma.cc', A + 'morpheme.cc', A + 'analysis.cc'], [('scoring', 'unigram_tagger.cc')])
prop('P20', 'The perceptron tagger outputs a best-scoring sequence for its weights',
     'For every feature specification and every weight vector, the features computed for a position are those the specification text denotes, and with a beam at least as wide as the number of alternatives the chosen sequence has the maximal total score. Training leaves as weights the average over updates of the perceptron weight vector.',
     ['inputs', 'programs'], 'all sentences up to the bound for a set of specifications covering every expression kind',
     'Feature programs are compiled to bytecode; errors need particular expression nestings.',
     [A + 'perceptron_spec.cc', A + 'mtx_reader.cc', A + 'perceptron_tagger.cc', A + 'feature_vec.cc', A + 'feature_vec_averager.cc'], [('bytecode machine', 'perceptron_spec.cc'), ('beam search', 'perceptron_tagger.cc')])
prop('P21', 'Tagging keeps the text: surface, order and blanks survive every tagger mode',
     'For every analysed stream and every tagger and output option, the output contains one unit per input unit in the same order with all blanks, superblanks and escapes unchanged; each unit carries one of its own input analyses verbatim (or the unknown mark), with the surface form, all analyses or the mark exactly as the options say.',
     ['inputs', 'configurations'], 'all streams up to the bound over known, unknown, ambiguous, multiword, escaped and case-varied units and blanks, times all output option combinations, for every tagger type',
     'Loss happens only for particular neighbours (end of input, flush, unknown next to blank) and options.',
     [A + 'file_morpho_stream.cc', A + 'tagger_word.cc', A + 'hmm.cc', A + 'lswpost.cc', A + 'stream_tagger.cc', A + 'stream.cc', A + 'tagger.cc'], [('output formatting', 'tagger_word.cc, stream_tagger.cc')])
prop('P22', 'Saved tagger models read back as what was saved',
     'Writing a bigram or sliding-window tagger model and reading it back yields the same model: the model file holds exactly what the tagger definition declares (tags and their indices, open class, forbid, enforce, prefer and discard rules, ambiguity classes), a model file read and written again without retraining (-r 0) comes out identical, with every probability bit-exact (the bigram transition rows are re-normalised, so these up to rounding), whatever the magnitude of the numbers and the sizes of the parts.',
     ['inputs', 'configurations'], 'all tagger definitions of a bounded family, and all models whose numbers run through every binary exponent and whose sizes straddle every length limit of the integer encoding',
     'Encodings have value-dependent lengths; tests read no model they have written.',
     [A + 'tagger_data_hmm.cc', A + 'tagger_data_lsw.cc', A + 'tagger_data.cc', A + 'endian_double_util.cc', A + 'collection.cc', A + 'constant_manager.cc', A + 'tsx_reader.cc'], [('writers and readers', 'tagger_data_*.cc'), ('number encoding', 'endian_double_util.cc')])
prop('P23', 'Training estimates exactly what its formulas say and respects the tagger definition',
     'For every training corpus the trained parameters are those of the documented estimators: supervised bigram training gives smoothed relative frequencies of tag pairs and of ambiguity classes per tag; unsupervised training starts from the fractional (Kupiec) counts and each iteration is one exact Baum-Welch re-estimation; the sliding-window model starts from equal shares of the valid tag sequences of each window and iterates the same way; retraining continues from the saved model. Transitions the definition forbids (or does not enforce) have probability (practically) zero and every transition row sums to one. Words get the coarse tags and ambiguity classes the definition assigns.',
     ['inputs', 'configurations'], 'all corpora up to the bound over a small word set times tagger definitions with every kind of rule',
     'Normalisation errors depend on zero counts and on which transitions rules remove.',
     [A + 'hmm.cc', A + 'lswpost.cc', A + 'tsx_reader.cc', A + 'tagger_utils.cc', A + 'constant_manager.cc', A + 'file_morpho_stream.cc'], [('training', 'hmm.cc, lswpost.cc'), ('definition reader', 'tsx_reader.cc')])
prop('P24', 'De-formatting followed by re-formatting gives back the document',
     'For every format, passing a document through the de-formatter and straight through the re-formatter yields the document byte for byte, except that a character reference for a translatable character may come back as the character or as its preferred reference. Sentence marks inserted for the translator disappear again (heading marks asked for with -o stay).',
     ['inputs'], 'all token sequences up to the bound per format over its markup, reserved characters, blanks, character references, multi-byte characters and end-of-input positions',
     'Scanner states, buffers and escapes interact across token boundaries.',
     [A + 'deformat.xsl', A + 'reformat.xsl'] + [A + f + '-format.xml' for f in ('txt', 'html', 'html-alt', 'html-noent', 'odt', 'rtf', 'wxml', 'xlsx', 'pptx', 'mediawiki', 'latex', 'xpresstag')],
     [('generated scanners', 'deformat.xsl, reformat.xsl'), ('format definitions', '*-format.xml')])
prop('P25', 'De-formatters emit a well-formed stream with markup encapsulated',
     'For every document, the de-formatter\'s output is a well-formed stream: every bracket opens and closes properly without nesting, every reserved character of the text is escaped, markup and the contents of untranslatable elements appear only inside superblanks, and plain text only outside. Sentence-end marks appear only where the format declares a sentence end (never with -n as a period).',
     ['inputs', 'configurations'], 'same token sequences as for the round trip, times the de-formatter options',
     'As for the round trip.',
     [A + 'deformat.xsl'] + [A + f + '-format.xml' for f in ('txt', 'html', 'html-alt', 'html-noent', 'odt', 'rtf', 'wxml', 'xlsx', 'pptx', 'mediawiki', 'latex', 'xpresstag')], [('escaping and superblank output', 'deformat.xsl')])
prop('P26', 'Word-processor run adjustment keeps the text and never splits words',
     'For every document, adapting the runs of a paragraph preserves the concatenated text of each paragraph and the order of its content, only moves characters across run boundaries to the left so that no boundary is left inside a word, removes only runs that became empty and leaves all other markup as it was.',
     ['inputs'], 'all paragraphs of up to four runs with texts up to the bound over letters, spaces, hyphens, accented and special characters, with and without intervening non-text runs',
     'Boundary rules look at several characters on both sides, across several runs.',
     [A + 'adapt_docx.cc'], [('boundary search and redistribution', 'adapt_docx.cc')])
prop('P28', 'The apertium command runs the pipeline its options describe',
     'For every combination of options, format, direction, input and output arguments (in any order allowed), the command runs the de-formatter and re-formatter of the chosen format with the formatting options, passes the unknown-mark and ambiguity options to the mode, reads the given input, writes the given output, and removes its temporary files, whatever the path of TMPDIR and the variables of the environment are; invalid requests (a document that cannot be unpacked among them) end with a failure status and no translation.',
     ['configurations'], 'all combinations of options, formats, argument orders and input/output redirections up to the bound, with recording stand-ins for the tools',
     'The shell script has many option-dependent branches; tests run one or two.',
     [A + 'apertium-header.sh'], [('option handling and format dispatch', 'apertium-header.sh')])
prop('P29', 'Stream tools end on every input, however it is cut off',
     'For every prefix of every well-formed stream (input cut off after any character), every stream tool, every de- and re-formatter and the LaTeX pre- and postprocessors terminate on their own, without crash, hang or unbounded output (reporting an error is fine).',
     ['crash_points', 'inputs'], 'all cut-off points of all streams of a bounded set, for every tool',
     'Tests feed complete inputs only.',
     [A + f for f in ('pretransfer.cc', 'transfer.cc', 'interchunk.cc', 'postchunk.cc', 'transfer_mult.cc', 'apertium_cleanstream.cc', 'apertium_posttransfer.cc', 'wblank-attach.cc', 'wblank-detach.cc', 'caps_restorer.cc', 'apertium_extract_caps.cc', 'file_morpho_stream.cc', 'stream.cc', 'deformat.xsl', 'reformat.xsl')],
     [('end-of-input handling in token readers', 'all stream readers')])
prop('P27', 'Translation memories hold real sentence pairs of the two documents',
     'For every pair of documents, apertium-tmxbuild writes a well-formed TMX document whose units each pair a run of consecutive sentences of the first document with a run of consecutive sentences of the second, in document order and without overlap, with escapes undone, format blanks inside a segment as <ph/>, XML characters escaped, and format blanks, white space, symbols and final periods trimmed at the ends of a segment; only texts with letters and more than two spaces after the first letter are used. A document aligned with itself gives one unit for each usable sentence (line). Text after the last sentence end (a period followed by white space or a blank, ? or !) is not a sentence.',
     ['inputs'], 'all pairs of documents of up to the bound of sentences, all documents against themselves, all character sequences up to the bound inside a sentence',
     'Segments are cut, escaped, written to files, aligned, parsed back and trimmed; no test covers the tool.',
     [A + f for f in ('tmx_builder.cc', 'tmx_aligner_tool.cc', 'tmx_alignment.cc', 'tmx_trail_postprocessors.cc', 'tmx_dictionary.cc', 'tmx_book_to_matrix.cc', 'tmx_translate.cc', 'apertium_tmxbuild.cc')],
     [('TMXBuilder::nextTU', 'tmx_builder.cc'), ('TMXBuilder::xmlize', 'tmx_builder.cc'), ('TMXBuilder::printTU', 'tmx_builder.cc'), ('align', 'tmx_alignment.cc')])
prop('P30', 'Tagger maintenance tools: rules applied to a model, ambiguity classes listed',
     'apertium-tagger-apply-new-rules replaces the rules of a HMM model by those of the tag-set file, sets the forbidden and not enforced transitions to the minimal probability, renormalises the transitions, and changes nothing else; apertium-filter-ambiguity prints, in order, the first word of each ambiguity class of a corpus with one analysis per coarse tag; apertium-tagger-readwords prints each unit of a corpus (up to the requested number) with its coarse tags.',
     ['inputs', 'configurations'], 'all word sequences up to the bound under two tag sets; all combinations of old and new rules up to the bound',
     'A wrong index in the model or a class missed under one word order goes unseen; no test runs these tools.',
     [A + f for f in ('hmm.cc', 'apertium_tagger_apply_new_rules.cc', 'apertium_filter_ambiguity.cc', 'apertium_tagger_readwords.cc', 'tagger_word.cc', 'file_morpho_stream.cc', 'tagger_data.cc', 'tagger_data_hmm.cc')],
     [('HMM::apply_rules', 'hmm.cc'), ('HMM::filter_ambiguity_classes', 'hmm.cc'), ('TaggerWord::outputOriginal', 'tagger_word.cc')])
prop('P31', 'The spelling of a source file changes nothing',
     'Transfer, interchunk and postchunk rule files, tag-set files, perceptron specifications, case rules and mode files mean what their elements and attributes say: line breaks, indentation and comments between tags, an XML declaration or DOCTYPE, the order and quoting of attributes, character references in them, and <x></x> for <x/> alter neither the compiled file nor what the tools write when they run from it.',
     ['inputs'], 'for a source with every kind of element: each kind of layout at every single gap between tags and at all gaps, each tag spelling at every tag and at all tags, pairs of spellings; thorough: comments at every pair of gaps',
     'Every element is read by a loop of its own that steps over text, comments and end tags in its own way, twice for rule files (compiler and run time); tests use one layout.',
     [A + f for f in ('trx_reader.cc', 'tsx_reader.cc', 'mtx_reader.cc', 'xml_reader.cc', 'caps_compiler.cc', 'gen_modes.cc', 'transfer_base.cc', 'transfer.cc', 'interchunk.cc', 'postchunk.cc', 'transfer_instr.cc')],
     [('XMLReader::stepToNextTag', 'xml_reader.cc'), ('TRXReader::parse', 'trx_reader.cc'), ('TSXReader::procLabelSequence', 'tsx_reader.cc'), ('MTXReader::procSetDef', 'mtx_reader.cc'), ('CapsCompiler::compile_node', 'caps_compiler.cc')])

prop('P32', 'Faulty source files are refused and leave compiled files alone',
     'A rule file, tag set, perceptron specification, case-rule file or mode file that is not well-formed XML (cut off anywhere, a tag missing or misnamed, a stray reference, an attribute twice) ends its compiler with an error status, and no compiled file is written over an earlier one; the transfer stages refuse it too. So are refused: sections out of order and elements that do not belong in a declaration; patterns naming an undeclared category, rules clipping an undeclared attribute or calling an undeclared macro; macros or labels declared twice, tag-set rules naming an undeclared label; case rules with an unknown selection, element or contradictory conditions; perceptron specifications with an undeclared name or an expression of the wrong type. The correct source is accepted.',
     ['inputs'], 'for a source with every kind of element of every compiler: every kind of fault at every place; for perceptron expressions every context with expressions of every type; thorough: cuts at every character and every malformation at every tag',
     'Each reader checks by hand, element by element, and a missed check silently drops rules or compiles something else; tests compile correct sources only.',
     [A + f for f in ('trx_reader.cc', 'tsx_reader.cc', 'mtx_reader.cc', 'xml_reader.cc', 'caps_compiler.cc', 'gen_modes.cc', 'transfer_base.cc', 'apertium_preprocess_transfer.cc')],
     [('XMLReader::step', 'xml_reader.cc'), ('TRXReader::parse', 'trx_reader.cc'), ('TSXReader::newDefTag', 'tsx_reader.cc'), ('MTXReader::tryProcVar', 'mtx_reader.cc'), ('CapsCompiler::compile_match', 'caps_compiler.cc')])
prop('P33', 'A position outside the matched words reads as nothing',
     'When a rule or macro of transfer, interchunk or postchunk uses a word position that the matched pattern, the chunk or the argument list does not have, the expression is empty and an assignment to it has no effect; a macro called with too few arguments sees the missing ones as empty, one called with too many (or, in postchunk, with a word the chunk lacks) is skipped. The stage continues, and every other part of the output is as if the rest of the rule stood alone.',
     ['inputs'], 'every kind of expression and assignment at positions -1, 0, 1, 2, 3, 4 and 99, directly and in macros called twice with different arguments; every argument list up to length 3 over five positions for macros of one to three parameters; chunks of zero to three words',
     'Whether a position exists depends on the input (chunks shorter than the rule expects) and each instruction checks it in its own place, on first and on repeated evaluation.',
     [A + f for f in ('transfer.cc', 'interchunk.cc', 'postchunk.cc')],
     [('Transfer::checkIndex', 'transfer.cc'), ('Interchunk::checkIndex', 'interchunk.cc'), ('Postchunk::checkIndex', 'postchunk.cc'), ('Postchunk::processCallMacro', 'postchunk.cc')])

prop('P34', 'One command line, one meaning: spelling, order and files do not matter, and bad ones are refused',
     'For every tool, what it does depends only on which options and files it is given: short, clustered, long and unambiguously abbreviated spellings, every order of the options, before, between and after the files, reading standard input or a named file, writing standard output or a named file (replacing what it held) all give the same result. Trace and debugging options change nothing on the output. A command line with unknown or contradictory options, wrong numbers of files, unreadable input or unwritable output ends with an error (the format tools: a message), writes nothing on the standard output, does not crash, and leaves existing models untouched.',
     ['inputs', 'operation sequences'], 'for 20 tools and modes: every set of up to 3 options (of 7) in every order, each spelling, 3 positions, 3 ways of naming files; 490 faulty command lines over all tools; for the format tools every order of -i -n -o',
     'Options, file counts and defaults interact: one wrong index or optind, one missing break, one table entry shows only in one combination of spelling, order and number of files.',
     [A + f for f in ('apertium_transfer.cc', 'apertium_interchunk.cc', 'apertium_postchunk.cc', 'apertium_pretransfer.cc', 'apertium_posttransfer.cc', 'apertium_tagger.cc', 'tagger.cc', 'apertium_tmxbuild.cc', 'adapt_docx.cc', 'apertium_restore_caps.cc', 'apertium_extract_caps.cc', 'apertium_filter_ambiguity.cc')],
     [('main', 'apertium_transfer.cc'), ('apertium_tagger', 'tagger.cc'), ('main', 'apertium_pretransfer.cc')])

prop('P35', 'Size changes nothing',
     'What a tool does with n things is what its definition says for every n: long and many words, lemmas, tags, readings, parts, marks, blanks, spans, chunks, sentences, documents; many or deeply nested rules, classes, items, variables, macros, instructions and operands. Nothing is cut, lost, doubled or misplaced where an internal buffer, table or window ends, no product of probabilities vanishes in a long ambiguous stretch (neither in tagging nor in training), and no size makes a tool fail.',
     ['inputs'], 'about 200 dimensions of the filters, rule programs, taggers, training, formats, alignment, capitalisation and modes, each at every size up to a bound (filters 300, rules 40-80, stretches 160, formats 60, capitalisation 40) and at all sizes near powers of two (and 1000, 5120, 10000) up to 17000 / 2100',
     'Fixed buffers (flex, 2048 tokens, windows), floating point and recursion fail only beyond sizes no test reaches, and only at particular sizes.',
     [A + f for f in ('hmm.cc', 'transfer_base.cc', 'transfer.cc', 'interchunk.cc', 'postchunk.cc', 'pretransfer.cc', 'file_morpho_stream.cc', 'tagger.cc', 'apertium_extract_caps.cc', 'wblank-attach.cc', 'wblank-detach.cc', 'deformat.xsl', 'reformat.xsl')],
     [('HMM::tagger', 'hmm.cc'), ('HMM::train', 'hmm.cc'), ('TransferBase::flushBlanks', 'transfer_base.cc'), ('Transfer::readToken', 'transfer.cc')])

prop('P36', 'LaTeX documents come back',
     'A LaTeX document that is prepared for translation and put back together without a translation in between is the same document: commands, environments, arguments, comments, verbatim text, formulas, escaped characters and letters of any script, up to the notation of accents, ligatures and quotes (é for \\\'e). In between, the translator gets exactly the words of the text: no formula, comment, verbatim text, key of a reference, name of a command or environment, and no internal mark.',
     ['inputs'], 'every sequence of up to 3 of more than 200 LaTeX constructs (quick: 2, and 3 with the outer two from 33), through both postprocessors and through the chain of the translation script',
     'The converters are lexers with many states whose errors appear only when particular constructs meet; no test of the repository runs them.',
     [A + f for f in ('apertium-prelatex.l', 'apertium-postlatex.l', 'apertium-postlatex-raw.l', 'latex_accentsmap.cc', 'latex-format.xml', 'utils-fixlatex-header.sh', 'apertium-header.sh')],
     [('apertium-prelatex', 'apertium-prelatex.l'), ('apertium-postlatex-raw', 'apertium-postlatex-raw.l'), ('acentos', 'latex_accentsmap.cc'), ('translate_latex', 'apertium-header.sh')])

prop('P37', 'Whatever the grammars allow is accepted and means what its parts say',
     'Every rule file of transfer, interchunk or postchunk, tag set, file of case rules and mode file that the grammar (DTD) of its language allows, with names declared where they are used, is accepted by its compiler; every optional part may be left out and every repeatable one repeated. A rule file means the composition of its parts: any value may stand wherever the grammar has a value (words and chunks inside concatenations, assignments, comparisons and one another included), any instruction wherever it has an instruction, with the same meaning as elsewhere.',
     ['inputs'], 'every value of up to two levels (thorough: three) in every instruction and every operator, every pair of instructions in every place, every combination of optional sections and attributes; every small document of the other grammars',
     'The readers and the three interpreters are written by hand, element by element and context by context; the combinations that the grammar allows outnumber those any test or language pair uses.',
     [A + f for f in ('trx_reader.cc', 'transfer_base.cc', 'transfer.cc', 'interchunk.cc', 'postchunk.cc', 'caps_compiler.cc', 'tsx_reader.cc', 'gen_modes.cc', 'transfer.dtd', 'interchunk.dtd', 'postchunk.dtd', 'tagger.dtd', 'modes.dtd', 'crx.dtd')],
     [('Transfer::evalString', 'transfer.cc'), ('Interchunk::evalString', 'interchunk.cc'), ('Postchunk::evalString', 'postchunk.cc'), ('TRXReader::parse', 'trx_reader.cc'), ('CapsCompiler::compile_match', 'caps_compiler.cc'), ('TSXReader::newDefTag', 'tsx_reader.cc')])

prop('P38', 'apertium-unformat gives the text the translator of the format is given',
     'apertium-unformat [-f format] [in [out]] writes what the deformatter of the format (txt, html, html-noent, html-alt, rtf, mediawiki, wxml, xpresstag) makes of the document; for latex what the chain of LaTeX preparation and deformatter makes of it; for odt, docx, pptx and xlsx the deformatted content of every member of the archive that holds text (content.xml; XML parts of docx other than settings, themes, styles, fonts, relations and document properties; slides; shared strings) exactly once and of no binary or excluded member. A document from standard input gives the same as one from a file; what standard output already holds is kept when output is appended; the document and other files stay as they are, nothing stays behind in TMPDIR, and neither the path of TMPDIR nor variables of the environment matter. A document or format that cannot be processed is refused with a message and a status other than 0.',
     ['inputs', 'configurations'], 'every format, one to three ways of naming input and output, every spelling of the option, two (thorough: three) places for temporary files, every small document or archive; every request that cannot be served',
     'A shell script of its own that unpacks archives, picks members by name and deletes temporary files; what it does depends on the combination of format, way of input and environment, none of which is tested.',
     [A + f for f in ('apertium-unformat-header.sh',)],
     [('unformat_docx', 'apertium-unformat-header.sh'), ('unformat_odt', 'apertium-unformat-header.sh'), ('unformat_latex', 'apertium-unformat-header.sh')])

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

# ---------------------------------------------------------------- manifest
C = {}   # property -> (level, technique, note)


def check(pid, level, technique, note):
    C[pid] = (level, technique, note)


NA = {}
try:
    exec(open(V + '/meta/claims.py').read(), dict(check=check, NA=NA))
except FileNotFoundError:
    pass
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in P:
    i = p['id']
    if i in C:
        l, t, n = C[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 /verif/bin/check.py %s quick' % i,
                                thorough_cmd='python3 /verif/bin/check.py %s thorough' % i,
                                technique=t, level=l, level_note=n, evidence_file='/verif/evidence/%s.json' % i))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
