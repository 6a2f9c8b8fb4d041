# executed by registry.py: check(pid, level, technique, note); NA[pid] = reason
MC = 'bounded exhaustive exploration of the real program against a reference model'


def mc(pid, note):
    check(pid, 'model_checking', MC, note)


mc('P01', 'every token sequence up to the bound is run through the real filter and compared byte for byte with a stream model')
mc('P13', 'every token sequence up to the bound is run through the real filters and compared with a span-stack model')
mc('P14', 'every token and byte sequence up to the bound is run through the real filters and compared with a scanner model')
mc('P03', 'every rule set up to the bound is compiled and run by the real tools on every word sequence; compared with a direct longest-match interpreter')
mc('P04', 'every class definition up to the bound is compiled and run on every word; compared with a direct tag-pattern matcher')
mc('P05', 'every program of a bounded grammar is compiled and run; output compared with a reference interpreter of the rule language')
mc('P06', 'every attribute definition up to the bound on every word up to the bound; clip and assignment compared with a direct longest-first selector')
mc('P07', 'every output shape and every blank placement up to the bound; output compared with the interpreter and formatting pieces compared in order')
mc('P08', 'every way of building an output word from up to three words with every assignment of word-bound blanks; compared with the interpreter')
mc('P09', 'every chunk content up to the bound under every kind of rule; compared with the interpreter')
mc('P10', 'every chunk shape up to the bound with and without rules; compared with a direct model of chunk resolution')
mc('P12', 'every match description on every word, and every rule set up to the bound on every word sequence, compared with a direct count of votes; every stream through extraction compared with a scanner model')
mc('P24', 'every token sequence up to the bound is de-formatted and re-formatted by the real tools and compared with the document')
mc('P25', 'every token sequence up to the bound is compared byte for byte with a longest-match scanner over the format declaration')
mc('P15', 'every mode declaration up to the bound is expanded by the real tool in a scratch directory; files and contents compared with a direct expansion')
mc('P16', 'every pipeline up to the bound is rewritten by the real tool and compared word by word with a direct insertion model')
mc('P26', 'every paragraph of run texts up to the bound and every sequence of paragraph children; the adjusted document is parsed and compared with a direct boundary model')
mc('P28', 'every combination of the options up to the bound runs the real script in a scratch directory with recording stand-ins for the tools; the invocations, output and leftovers are compared with a direct model')
mc('P17', 'every tagset, model and sentence up to the bound: the real HMM tagger is run on model files written by the check; output compared with an exact most-probable-path search that also accepts ties')
mc('P18', 'every tagset, model and sentence up to the bound: the real sliding-window tagger is run on model files written by the check; output compared with a direct evaluation of the window sums')
mc('P19', 'every corpus of counts up to the bound and every word built from the analyses; output compared with the three published scoring formulas evaluated exactly')
mc('P20', 'every listed expression in every context, every sparse weight table with every sentence, and every corpus up to the bound; features, tagging and training of the real tool compared with a direct interpreter, beam search and averaged perceptron')
mc('P21', 'every sequence of units and blanks up to the bound through every tagger and option set; output re-tokenised and compared unit by unit and blank by blank')
mc('P11', 'every tagger definition up to the bound and every word; coarse tags seen through the real tagger compared with a direct longest-first matcher')
mc('P22', 'every definition, exponent and size of the bounded families: model files written by the real trainer are parsed and compared with the declaration, and compared again after a read-write cycle')
mc('P23', 'every corpus up to the bound under every kind of rule; the probabilities in the model file compared with exact reference estimators')
mc('P02', 'every history of documents up to the bound in one process compared with each document in a process of its own; every ordered pair also over pipes with the reply awaited')
mc('P29', 'every cut-off point of every stream of the bounded set, for every tool and option set; each run must end by itself with bounded output')
mc('P27', 'every pair of documents up to the bound through the real tool; the units are parsed and placed against sentence lists cut by a direct reading of the format')
mc('P30', 'every word sequence and every pair of rule sets up to the bound through the real tools; printed words and the numbers in the model file compared with the reference')
mc('P31', 'every spelling up to the bound of a source with every kind of element, through the real compilers and stages; compiled bytes and outputs compared with those of the plain spelling')

mc('P32', 'every fault of every kind at every place of a source with every kind of element, through the real compilers; status and compiled file compared with the expectation, correct sources included')
mc('P33', 'every use of a position inside and outside the matched words through the real tools; compared with an interpreter in which a missing word reads as nothing')
mc('P34', 'every option set, order, spelling, position and way of naming files up to the bounds through the real main functions, each compared with the plain command line; every faulty command line of the tables must be refused without a trace')
mc('P35', 'every size up to a bound and every size near the powers of two of each dimension through the real tools; outputs compared with closed forms, the reference interpreter, a Viterbi and a Baum-Welch in numbers that cannot underflow')
mc('P36', 'every sequence of LaTeX constructs up to the bound through the real lexers and the real chain of filters; the meaning of the result (accents, ligatures and quotes as characters) is compared with that of the document, the words between the filters with the words of the constructs')
mc('P37', 'every document of the grammars up to the bound, validated by the grammars of the repository, through the real compilers and stages; outputs of rule files compared with the reference interpreter on programs read back from the same file')
mc('P38', 'every request up to the bound, run by the real script with recording stand-ins for the tools and real unzip, as an unprivileged user inside a scratch directory; output compared with the declared pipeline, members of archives as a set')
