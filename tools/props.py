#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'src/lib/'
H = 'src/include/travatar/'
P = []
DEFAULT_NOTE = '''Every recorded run of the real code on the generated inputs is decided by TLC against the specification; assurance is bounded by the sizes of
 the generated inputs, and trusts the driver that records the run and TLC.'''
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), level_note=None, na=None,
         technique='TLA+ specification checked with TLC; implementation traces validated against it'):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                  why=' '.join(why.split()), files=files, mechanism=mechanism, state=list(state), observe=list(observe),
                  note=level_note, na=na, technique=technique))

prop('P01', 'Worker pool: every task runs once, bounded queue, waiting and stopping end',
 '''Every task accepted by the worker pool is run exactly once (unless the pool is stopped without completion), and no more than the configured number of
 tasks are queued at any time. Waiting returns only after every task submitted before it has finished, and stopping with
 completion lets every task accepted before it was called finish before it returns; stopping without completion may drop queued tasks but runs none twice. Under no interleaving of submitter and workers do they block forever.''',
 ['schedules', 'histories'], 'all interleavings of submitting, waiting, stopping and worker threads, for every worker count, queue limit and task count',
 'The only pool test runs one benign schedule; races, lost wake-ups and shutdown orders need particular interleavings.',
 [L+'thread-pool.cc', H+'thread-pool.h', H+'task.h'],
 [dict(name='ThreadPool', where=L+'thread-pool.cc')],
 state=[dict(name='queue', meaning='accepted tasks not yet taken'), dict(name='stop/wait flags', meaning='shutdown in progress')],
 observe=['task executions', 'return of Submit, Wait, Stop'])

prop('P02', 'Decoding output is in input order and independent of the thread count',
 '''For any number of threads and any completion order, decoder output lines (translations, n-best lists, forests) are emitted in input
 order, each sentence's output contiguous and exactly once. The bytes written equal those of a single-threaded run on the same input.''',
 ['schedules', 'inputs'], 'all completion orders of sentences, all thread counts, all inputs',
 'Tests decode one sentence on one thread and never exercise out-of-order completion.',
 [L+'output-collector.cc', L+'travatar-runner.cc', L+'thread-pool.cc'],
 [dict(name='OutputCollector', where=L+'output-collector.cc'), dict(name='TravatarRunner::Run', where=L+'travatar-runner.cc')],
 observe=['stdout', '-nbest_out', '-forest_out'])

prop('P03', 'N-best lists are the true n best derivations, sorted, without repeats',
 '''For every acyclic translation forest and every n, the n-best list holds exactly min(n, number of derivations) different complete derivations,
 in non-increasing score order, whose scores are the n highest among all derivations. With unique output requested, no two entries have the same target
 string and the list holds the best derivation of each of the n best-scoring strings.''',
 ['inputs'], 'all acyclic forests with scores, all n, unique or not',
 'Tests check one seven-edge forest; ties, shared nodes, deep nesting and n beyond the number of derivations are not reached.',
 [L+'hyper-graph.cc', H+'hyper-graph.h'],
 [dict(name='HyperGraph::GetNbest', where=L+'hyper-graph.cc')], observe=['GetNbest', '-nbest_out'])

prop('P04', 'A derivation\'s score, features and translation are those of its rules',
 '''For every derivation returned, its score is the sum of its edge scores, its features are the sum of its edges' features, and each edge score after
 weighting equals the dot product of the weights and its features. Its translation (in every target factor) is obtained by substituting each
 sub-derivation's translation for the corresponding variable in the rule's target side, in rule order.''',
 ['inputs'], 'all forests, weights, rule target sides with reordered variables, multi-factor targets',
 'Tests substitute a couple of fixed rules; reordering, nesting and several factors are barely sampled.',
 [L+'hyper-graph.cc', L+'cfg-data.cc'],
 [dict(name='HyperPath::CalcTranslation', where=L+'hyper-graph.cc'), dict(name='HyperGraph::ScoreEdges', where=L+'hyper-graph.cc')])

prop('P05', 'Inside-outside normalization yields exact edge posteriors',
 '''For every acyclic forest whose edge scores are log weights, normalization replaces each edge's score by the log of its posterior: the total weight of the
 derivations that use the edge divided by the total weight of all derivations. Edges used by no derivation of the root get zero posterior.''',
 ['inputs'], 'all acyclic forests and weights',
 'Tests check one forest with equal weights.',
 [L+'hyper-graph.cc', H+'hyper-graph.h'], [dict(name='HyperGraph::InsideOutsideNormalize', where=L+'hyper-graph.cc')])

prop('P06', 'Pruning a forest to its n best keeps exactly those derivations',
 '''Pruning a forest to its n best derivations keeps exactly the nodes and edges used by one of those derivations, with all their attributes. The n-best list of the
 pruned forest equals that of the original, and every derivation of the pruned forest is a derivation of the original with the same score.''',
 ['inputs', 'configurations'], 'all forests and n, including through the decoder\'s trimming option',
 'One fixed forest is tested; the decoder option itself is never run.',
 [L+'trimmer.cc', L+'trimmer-nbest.cc', L+'travatar-runner.cc'], [dict(name='TrimmerNbest', where=L+'trimmer-nbest.cc')])

prop('P07', 'Tree-to-string rule application covers exactly the matching rule tilings',
 '''For every input tree or forest and rule table, the translation forest contains exactly one edge per node and per way a rule's source side matches at that node, with that rule's features,
 target sides and the matched subtrees as tails in variable order. A pass-through edge is created exactly where the options ask for one (no rule matches, or at every node), and the root derivations are exactly
 the ways to tile the input with these edges.''',
 ['inputs', 'configurations'], 'all input forests, rule tables, unknown-word options and matching options',
 'Tests use one or two small trees and a handful of rules.',
 [L+'lookup-table.cc', L+'lookup-table-hash.cc', L+'lookup-table-marisa.cc', H+'lookup-table.h'],
 [dict(name='LookupTable::TransformGraph', where=L+'lookup-table.cc')])

prop('P08', 'Rule storage back-ends and loading routes are interchangeable',
 '''Every rule in a rule table file is found by lookup, with exactly its source side, target sides, features and label data, for every storage back-end.
 The translation forests built from the hash and the compact trie storage are the same set of edges on every input.''',
 ['inputs', 'configurations'], 'all rule tables and inputs',
 'Tests read a few rules in each back-end and never compare back-ends.',
 [L+'lookup-table-hash.cc', L+'lookup-table-marisa.cc', L+'translation-rule.cc'], [dict(name='LookupTableMarisa::ReadFromRuleTable', where=L+'lookup-table-marisa.cc')])

prop('P09', 'Synchronous CFG parsing finds exactly the derivations of the grammar',
 '''For every synchronous CFG (one or several tables, including unary and abstract rules) and sentence, the chart built by the hierarchical parser has, over every reachable span and nonterminal, exactly the
 edges of rules of the grammar whose source side matches that span, linked to the right sub-spans, reachable from the root. Unknown words are passed through and glue rules apply as documented.''',
 ['inputs'], 'all grammars without unbounded unary recursion, all sentences, span limits',
 'Tests use a few grammars on two- to four-word sentences.',
 [L+'rule-fsm.cc', L+'lookup-table-fsm.cc', L+'translation-rule-hiero.cc'], [dict(name='LookupTableFSM::TransformGraph', where=L+'lookup-table-fsm.cc')])

prop('P10', 'Integrated language-model CFG decoding agrees with parsing then rescoring',
 '''Decoding a sentence with the integrated language-model chart decoder finds, when no pruning limit is hit, a best derivation whose score equals the best sum of rule score and language model score over all
 derivations of the grammar. Scores and features on the returned forest equal the recomputed ones.''',
 ['inputs'], 'all grammars, language models and sentences within the pop limit', 'Tests check a fixed grammar and language model.',
 [L+'lookup-table-cfglm.cc', L+'lm-composer-incremental.cc'], [dict(name='LookupTableCFGLM', where=L+'lookup-table-cfglm.cc')])

prop('P11', 'Language model intersection scores every translation exactly',
 '''After language model composition, every complete derivation corresponds to a derivation of the input forest with the same translation and its score is the input score plus weighted language model
 log probability and unknown-word count of that translation with sentence boundaries. When no pruning limit is hit, the best translation and its score are the true optimum over the input forest.''',
 ['inputs', 'configurations'], 'all forests, n-gram models, multi-factor models and pop limits',
 'Tests compose a single forest with a three-gram model.',
 [L+'lm-composer-bu.cc', L+'lm-composer-incremental.cc', L+'lm-composer.cc', L+'lm-func.cc'], [dict(name='LMComposerBU::TransformGraph', where=L+'lm-composer-bu.cc')])

prop('P12', 'GHKM extraction yields exactly the minimal rules allowed by the alignment',
 '''For every parse tree or forest, target sentence and alignment, the extracted minimal rules are exactly those rooted at an admissible node (its target span, closed to an interval, is disjoint from the targets of the rest of the sentence)
 and cut at the highest admissible descendants. Each rule's target side is its target span with the cut nodes' spans replaced by variables, and composing the rules of the tree gives back the source tree and the target sentence.''',
 ['inputs'], 'all trees/forests, alignments (unaligned words, many-to-many, crossing) and target sentences',
 'Tests use three sentence pairs.',
 [L+'forest-extractor.cc', L+'hyper-graph.cc', L+'alignment.cc'], [dict(name='ForestExtractor::ExtractMinimalRules', where=L+'forest-extractor.cc')])

prop('P13', 'Composed rules are exactly the connected combinations within the limits',
 '''Rule composition adds exactly the edges obtained by substituting rules into one another with at most the configured number of minimal rules (and source length limit). Each composed edge
 covers the union of its fragments, with their score product/sum and tails in left-to-right order, and the minimal edges are kept.''',
 ['inputs', 'configurations'], 'all rule forests, orders and limits', 'One forest of order two and three is tested.',
 [L+'rule-composer.cc'], [dict(name='RuleComposer::TransformGraph', where=L+'rule-composer.cc')])

prop('P14', 'Attaching unaligned target words changes only unaligned words',
 '''Attaching unaligned target words never drops or duplicates an aligned word: every target word covered by a derivation's rules stays covered exactly once, and the words added are unaligned ones adjacent to the rule.
 Top attachment gives each unaligned word to one highest adjacent node and exhaustive attachment yields every allowed placement exactly once within the limit.''',
 ['inputs', 'configurations'], 'all rule forests and alignments with unaligned target words', 'Two fixed examples are tested.',
 [L+'forest-extractor.cc'], [dict(name='AttachNullsTop/AttachNullsExhaustive', where=L+'forest-extractor.cc')])

prop('P15', 'Hierarchical phrase extraction is sound and complete for the alignment',
 '''The phrase pairs extracted are exactly the pairs of spans within the length limit that contain a link and no link from inside to outside, including those extended over unaligned boundary words (source words after the
 last aligned one excepted). For each source span the pair with the shortest target makes rules: every way to replace none, one or two disjoint such pairs inside it by variables, not adjacent in the source, with at least
 one and at most the allowed number of words left on each side, gives one rule with its own words, order and links, and nothing else does.''',
 ['inputs', 'configurations'], 'all aligned sentence pairs and limits', 'Tests use two sentence pairs.',
 [L+'hiero-extractor.cc'], [dict(name='HieroExtractor', where=L+'hiero-extractor.cc')])

prop('P16', 'Tree and forest formats round-trip and agree with each other',
 '''Reading a tree in Penn, rule or word format gives exactly the tree written there, whatever the white space; damaged input is reported or ends the input. Writing any tree in one of these formats, or any forest in JSON
 or Egret format, and reading it back gives a forest with the same nodes, labels, spans, edges, scores (to the printed precision), features and words, and Egret posteriors are normalized per node. Labels and words with
 quotes, backslashes or non-ASCII characters survive, and brackets too where the format can express them.''',
 ['inputs'], 'all trees and forests, all label and word strings without white space', 'A few fixed strings are parsed.',
 [L+'tree-io.cc', L+'dict.cc'], [dict(name='TreeIO', where=L+'tree-io.cc')])

prop('P17', 'Binarization preserves the trees a forest encodes',
 '''Binarizing a forest (left, right, with raised punctuation, or exhaustively by splitting off the first or last child) divides every edge of three or more children (up to seven for the exhaustive mode) into edges of two, keeps every
 original node with its label and span and the root as first node, and its derivations, after splicing out the intermediate nodes, are exactly the original trees with their scores and features.
 Directional binarization yields one binarization per tree, and the new nodes' labels and spans describe the children they cover.''',
 ['inputs'], 'all forests, all branching factors', 'One or two fixed trees per binarizer are tested.',
 [L+'binarizer-directional.cc', L+'binarizer-cky.cc', L+'binarizer.cc'], [dict(name='Binarizer', where=L+'binarizer.cc')])

prop('P18', 'Tree transformations only change what they say they change',
 '''Splitting words (by regular expression or into known compounds), flattening unary chains and changing letter case rewrite a tree so that the structure, scores and labels not concerned are unchanged. The word sequence equals the original with only
 the stated replacement (split parts re-joined, with the filler of a compound, give back the word; only sentence-initial words are titled or true-cased), and all spans and terminal positions stay consistent with the word sequence.
 The tree converter applies them in the order splitting, binarizing, flattening, casing.''',
 ['inputs'], 'all trees and words', 'One or two trees each.',
 [L+'word-splitter.cc', L+'word-splitter-regex.cc', L+'word-splitter-compound.cc', L+'unary-flattener.cc', L+'caser.cc'], [dict(name='WordSplitter::TransformGraph', where=L+'word-splitter.cc')])

prop('P19', 'Sparse vectors obey vector algebra',
 '''Sparse vectors behave as the functions from feature to value they denote (absent is zero): addition, subtraction, scaling, inner product and construction from duplicate, unsorted or zero entries agree with pointwise arithmetic,
 and equal functions compare equal. Printing a sparse vector and parsing it back gives the same function, to the printed precision.''',
 ['histories', 'inputs'], 'all sequences of operations and values', 'A few two- and three-element vectors are tested.',
 [L+'sparse-map.cc', H+'sparse-map.h', L+'dict.cc'], [dict(name='SparseVector', where=L+'sparse-map.cc')])

prop('P20', 'The symbol dictionary is a stable one-to-one mapping',
 '''Two strings get the same identifier exactly when they are equal, an identifier never changes once given and maps back to its string, under any interleaving of lookups from several threads. After freezing, known strings keep
 their identifiers and unknown ones are reported as unknown without being added.''',
 ['schedules', 'histories'], 'all histories of lookups by all threads', 'Only a few lookups on one thread.',
 [L+'dict.cc', H+'symbol-set.h'], [dict(name='SymbolSet', where=H+'symbol-set.h')])

prop('P21', 'BLEU statistics are exact clipped n-gram counts',
 '''For every reference and hypothesis, BLEU's statistics are, for each order up to the configured one, the clipped n-gram matches, the hypothesis n-gram count and the reference n-gram count, and the score is the brevity penalty times the geometric
 mean of the smoothed precisions. Corpus, sentence and sentence-level-scope options agree with their definitions, cached or not.''',
 ['inputs', 'configurations'], 'all sentence pairs, orders, smoothing values and scopes', 'Two sentence pairs are tested.',
 [L+'eval-measure-bleu.cc'], [dict(name='EvalMeasureBleu', where=L+'eval-measure-bleu.cc')])

prop('P22', 'Error-rate measures equal their edit-distance definitions',
 '''Word error rate is the minimum number of insertions, deletions and substitutions divided by the reference length; zero-one is sentence equality; RIBES is the rank correlation of the unambiguous word alignment times its precision and brevity terms;
 translation error rate counts a moved block as one edit, never exceeds the word error rate (within its search beam of 20 edits) and is zero exactly on equal sentences. None depends on anything but the two sentences.''',
 ['inputs'], 'all sentence pairs', 'A couple of pairs each.',
 [L+'eval-measure-wer.cc', L+'eval-measure-ter.cc', L+'eval-measure-zeroone.cc', L+'eval-measure-ribes.cc'], [dict(name='EvalMeasureWer::EditDistance', where=L+'eval-measure-wer.cc')])

prop('P23', 'Evaluation statistics add up, serialize and combine faithfully',
 '''Accumulated statistics are the component-wise sums of the sentence statistics in any order of accumulation, scaling scales every component, and a corpus score depends on the accumulated statistics only. Writing statistics and reading them back
 gives the same statistics, and interpolated measures equal the stated combination of their parts.''',
 ['histories', 'configurations'], 'all measures, all sequences of additions and scalings, all interpolation strings', 'One case per measure.',
 [L+'eval-measure.cc', L+'eval-measure-interp.cc', L+'eval-measure-adv-interp.cc', L+'mt-evaluator-runner.cc', H+'eval-measure.h'],
 [dict(name='EvalStats', where=H+'eval-measure.h')])

prop('P24', 'N-best MERT finds exact optima: line search, step ranges and tuning runs',
 '''For every set of n-best lists and search direction, the per-sentence segments are exactly the upper envelope of the candidates' score lines, each with the statistics of the winning candidate; line search returns a step inside
 the allowed range (the one keeping every weight of the direction within its limits) at which the corpus score is the best attainable anywhere along the line, and a gain that is that score minus the current one.
 A coordinate or greedy tuning run ends, for any number of threads, with weights whose corpus score is the score it returns, is no worse than the initial one, and cannot be improved by changing any single weight (within its limits, for greedy tuning).''',
 ['inputs'], 'all n-best lists, weights, directions and ranges', 'Two or three examples with two or three candidates.',
 [L+'tune-mert.cc', L+'tuning-example-nbest.cc'], [dict(name='TuneMert::LineSearch', where=L+'tune-mert.cc')])

prop('P25', 'Forest MERT envelopes equal those of the enumerated derivations',
 '''For every forest and search direction, the envelope computed over the forest equals the upper envelope of the score lines of all its derivations, with the translation of a winning derivation in each segment.''',
 ['inputs'], 'all forests, weights and directions', 'One forest.',
 [L+'mert-geometry.cc', L+'tuning-example-forest.cc'], [dict(name='MertHull', where=L+'mert-geometry.cc')])

prop('P26', 'Online learners follow their update rules for every history',
 '''After any sequence of updates, n-best adjustments and reads, the weights equal those of the defining rule applied eagerly at every example: perceptron with learning rate, margin, L1 shrinkage and range limits; averaged perceptron as the mean over all updates; delayed perceptron as the sum of the changes; Adagrad.
An adjustment learns from the first n-best entry with the best evaluation score over the references against the first entry, and from nothing when the list is empty.
Reading weights, one or all, at any time changes nothing later, and every way of reading or scoring with them gives the same values.''',
 ['histories'], 'all histories of pairwise updates, adjustments and reads', 'One or two updates each.',
 [L+'weights-perceptron.cc', L+'weights-average-perceptron.cc', L+'weights-pairwise.cc', H+'weights-delayed-perceptron.h', L+'weights.cc'],
 [dict(name='PairwiseWeights::Update', where=L+'weights-pairwise.cc')])

prop('P27', 'Sentence segmentation is a complete, optimal partition',
 '''The segmenter assigns every hypothesis word to exactly one segment, in order, one segment per reference, none longer than the slack times its reference; when there is no such partition it reports an error. Each segment's
 end is the one that gives the highest score of the rest of the corpus together with the best segmentation of what follows (the first of equals), so for WER the total is the best over all such partitions.''',
 ['inputs', 'configurations'], 'all hypothesis streams, reference lists, slacks and measures', 'A single example.',
 [L+'mt-segmenter-runner.cc'], [dict(name='MTSegmenterRunner', where=L+'mt-segmenter-runner.cc')])

prop('P28', 'N-best rescoring re-ranks without losing entries',
 '''Rescoring an n-best file outputs, for every sentence, a highest-scoring entry under the given weights (or lowest expected loss for minimum Bayes risk), in input order. The rewritten n-best list holds the same entries with
 their recomputed scores in non-increasing order.''',
 ['inputs'], 'all n-best files, weights and options', 'No test runs the rescorer.',
 [L+'rescorer-runner.cc'], [dict(name='RescorerRunner', where=L+'rescorer-runner.cc')])

prop('P29', 'Formula evaluation follows standard arithmetic precedence',
 '''Every well-formed formula evaluates to its value under the usual precedence and left associativity of + - * / with parentheses, for every assignment of its variables. Malformed formulas (unbalanced parentheses, operators and operands that do not match, unknown variables, stray characters) are rejected with an error, never a value or a crash.''',
 ['inputs'], 'all formulas and variable assignments', 'A handful of formulas.',
 [L+'math-query.cc'], [dict(name='MathQuery', where=L+'math-query.cc')])

prop('P30', 'Command-line and configuration file options resolve predictably',
 '''An option given on the command line overrides the configuration file, which overrides the default, for every combination and order, and the last of repeated settings counts. Every unknown option, wrong number of arguments or ill-typed value is rejected with an error, and a value set by the program is read back unchanged.''',
 ['configurations'], 'all option lists and configuration files', 'No test covers option parsing.',
 [L+'config-base.cc', H+'config-base.h'], [dict(name='ConfigBase', where=L+'config-base.cc')])

prop('P31', 'Rule tables are filtered, turned and combined and alignments merged exactly',
 '''Filtering a rule table for an input keeps, unchanged and in order, exactly the rules whose source could match a sentence (words in order, variables standing for one or more words; filter-rt.pl: every run of words found, sizes within the limits).
 Turning a table around twice gives it back; combining two tables merges the features and counts of each rule, keeps the most frequent rules of a source under a limit and reports tables that do not match.
 Symmetrization yields a set between intersection and union of the two directions: with growing, the intersection and the links of the union reached from it through neighbours, and the links the final step allows.''',
 ['inputs', 'configurations'], 'all rule tables, inputs, alignments and options', 'Scripts have no tests.',
 ['script/train/filter-rule-table.py', 'script/train/filter-rt.pl', 'script/train/symmetrize.pl', 'script/train/reverse-rt.pl', 'script/train/combine-rt.pl'], [dict(name='filter-rule-table', where='script/train/filter-rule-table.py'), dict(name='symmetrize', where='script/train/symmetrize.pl')])

prop('P32', 'NIST scores weight n-gram matches by their information in the references',
 '''For every set of references, NIST's statistics are, for each order, the sum over clipped n-gram matches of the n-gram's information (log of its context's count over its own count in all references), the hypothesis n-gram count, and the reference length.
 The score is the sum over orders of information per hypothesis n-gram times the length penalty, zero for orders with no n-gram, also inside combined measures.''',
 ['inputs', 'configurations'], 'all reference sets, hypotheses, orders and scopes', 'One reference set is tested.',
 [L+'eval-measure-nist.cc', L+'eval-measure-interp.cc'], [dict(name='EvalMeasureNist', where=L+'eval-measure-nist.cc')])

prop('P34', 'Extraction programs print exactly the rules of every sentence within the limits',
 '''For every corpus of parses, targets and alignments, forest-extractor prints for each sentence, in the order of the file, exactly the rules that binarization, composition and attachment allow and that are within the limits on variables, words and partial count.
 Each has its probability, or with normalization its share of all derivations of the sentence; sentences without parse or links give none. hiero-extractor divides a count of one among the rules of each phrase pair, and files of different lengths are reported.''',
 ['inputs', 'configurations'], 'all corpora, formats and extraction options', 'The programs are not tested.',
 [L+'forest-extractor-runner.cc', L+'hiero-extractor-runner.cc', L+'rule-filter.cc', L+'hyper-graph.cc'], [dict(name='ForestExtractorRunner::Run', where=L+'forest-extractor-runner.cc'), dict(name='HieroExtractorRunner::Run', where=L+'hiero-extractor-runner.cc')])

prop('P33', 'Training estimates exactly the tables its corpus and options define',
 '''For every aligned corpus and every set of options, training writes the lexical tables, rule counts and scores that the links and extracted rules define: relative frequencies in both directions, lexical weights over all or linked words, and discounts, for the most frequent rules of every source.
 Options given to the training script (alignment, symmetrization, extraction limits, scoring, thresholds, method, formats) reach the step they are for, and the configuration it writes decodes with that model. Rules below a smallest count neither appear nor count.''',
 ['inputs', 'configurations'], 'all corpora, alignments and training options', 'The training scripts have no tests.',
 ['script/train/train-travatar.pl', 'script/train/score-t2s.pl', 'script/train/align2lex.pl', 'script/train/combine-rt.pl', 'script/train/symmetrize.pl'],
 [dict(name='m1prob', where='script/train/score-t2s.pl'), dict(name='train', where='script/train/train-travatar.pl')])

prop('P35', 'Training stopped at any moment can be resumed to the same complete model',
 '''Whatever step of training is interrupted or fails, and however much of its output had been written, -resume finishes with the model an undisturbed run gives, also after several stops, in stages, with several processes, and with files given by the user.
 No failure of a step, also inside a pipeline or in a parallel process, is passed over: the run ends with an error and writes no configuration. Steps whose output is known to be complete are not repeated, and a working directory is not overwritten without -resume.''',
 ['crash_points', 'histories', 'schedules'], 'all points of interruption, states of the written files and sequences of runs', 'The training script is not tested.',
 ['script/train/train-travatar.pl'], [dict(name='get_ready_file', where='script/train/train-travatar.pl'), dict(name='safesystem', where='script/train/train-travatar.pl')])

prop('P36', 'The tuning loop decodes, tunes, stops and resumes with exactly what it reached',
 '''In every iteration of mert-travatar.pl the decoder runs with the weights found by the previous one and an otherwise unchanged configuration (its rule tables filtered for the input, none lost), the tuner gets all candidates of all iterations so far, without
 those seen before, with their statistics, and the options reach the programs they are for. Tuning ends when no weight, old or new, has moved or after the given number of iterations; the result is the given configuration with the last weights.
 After any stop or failure the run ends with an error and no partial result, and -resume continues from the newest complete iteration to the result of an undisturbed run.''',
 ['inputs', 'histories', 'crash_points'], 'all candidate lists, weights, options, points of interruption and sequences of runs', 'The tuning scripts are not tested.',
 ['script/mert/mert-travatar.pl', 'script/mert/nbest-uniq.pl', 'script/mert/update-weights.pl', 'script/mert/densify-nbest.pl', 'script/mert/make-init-opt.pl', 'script/train/filter-model.pl'],
 [dict(name='outer loop', where='script/mert/mert-travatar.pl'), dict(name='candidate merging', where='script/mert/nbest-uniq.pl')])

prop('P37', 'Tuning program: weights, scores and options are what the candidates say',
 '''For any candidate lists or forests, in one or several files and on any number of threads, batch-tune gives the same score and weights whether the statistics are computed from the references or read from a file, and -stat_out writes for each candidate exactly its statistics against its sentence's reference.
 The weights printed are those of the best of the runs made (from the given, zero and random weights), the score reported is that of the candidates these weights choose, no lower than at the given weights and not improvable by moving one weight within its range.
 Wrong columns, candidates without a reference, statistics that do not match the candidates and bad options end with an error and no weights.''',
 ['inputs', 'schedules'], 'all candidate lists, forests, references, measures, options, thread counts', 'Tests call the line search on one small n-best list; the program, its files, options and threads are not tested.',
 [L+'batch-tune-runner.cc', L+'tune.cc', L+'tune-greedy-mert.cc', L+'tuning-example-nbest.cc', L+'tuning-example-forest.cc', L+'eval-measure-bleu.cc'],
 [dict(name='BatchTuneRunner', where=L+'batch-tune-runner.cc'), dict(name='greedy coordinate search', where=L+'tune-greedy-mert.cc')],
 observe=['stdout', '-stat_out', 'exit status'])

prop('P38', 'Preprocessing keeps all languages and stages parallel, whole and in order',
 '''For any number of threads, way of splitting and length limit, every file preprocess.pl produces (tokens, cleaned text, trees, forests, lowercased and truecased text) holds exactly one entry for each sentence pair within the limits, in the same order in every file, each computed from that line, nothing lost or repeated.
 A program that fails or drops lines and bad options or inputs are reported as errors and not passed over.
 Preprocessing stopped at any point and taken up again gives the same files as an undisturbed run.''',
 ['inputs', 'histories', 'crash_points'], 'all corpora, thread counts, split types, limits, options and points of interruption', 'The preprocessing scripts are not tested.',
 ['script/preprocess/preprocess.pl', 'script/train/clean-corpus.pl', 'script/tree/lowercase.pl', 'script/tree/replace-failed-parse.pl'],
 [dict(name='splitting and joining', where='script/preprocess/preprocess.pl'), dict(name='length limit', where='script/train/clean-corpus.pl')])

if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            q = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mechanism']))
            if p['state']: q['anchors']['state'] = p['state']
            if p['observe']: q['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(q) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists('%s/checks/%s.py' % (V, p['id'])):
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='model_checking',
                level_note=' '.join((p['note'] or DEFAULT_NOTE).split())))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or 'specification and conformance check not built yet'))
    m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
             notes='TLA+/TLC specifications in spec/, conformance drivers in harness/, one check module per property in checks/.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
