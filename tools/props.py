"""python3 tools/props.py: writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, EV, IO = 'babylondigger/datamodel.py', 'babylondigger/evaluation/evaluation.py', 'babylondigger/evaluation/conllu_io.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, claimed=True, note='', na='', tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claimed=claimed, note=note, na=na, tech=tech))


prop('C01', 'Deriving a token changes exactly the layer it names',
     'Deriving a token with new morphology, syntax or extras, merging extras, or resolving heads yields a token whose named layer '
     'has the given value (extras are merged key by key, the update winning; a sentence head i becomes document head i plus the '
     'sentence offset and vice versa) and whose span, text replacement, position inside a multiword token and every other layer '
     'are those of the original. A head that would resolve to a position before its sentence is rejected with ValueError. '
     'Construction keeps every argument it is given and rejects invalid spans.',
     ['inputs'], 'all tokens, all layer values (absent ones included), all offsets',
     'the suite copies two tokens; it never varies which layers are absent or combined',
     [D], [('Token', D), ('TokenExtras', D)],
     note='accessor-by-accessor equality of the derived token with the original, over symbolic tokens')
prop('C03', 'Equality, hashing and ordering of data-model values are consistent',
     'Two POS values, extras, tokens, document tokens, sentences or documents (text, tokens, sentence boundaries) compare '
     'equal exactly when all their observable fields are equal; unequal types are left to the other operand. Equal values hash equally, whatever order their features or extras were '
     'inserted in. POS values are totally ordered, with absent parts allowed, and the four ordering operators agree with equality.',
     ['inputs'], 'all pairs (and triples for ordering) of values, absent parts included',
     'the suite compares a handful of equal values; it never permutes insertion order or orders values with absent parts',
     [D], [('Pos', D), ('Token', D), ('Sentence', D), ('Document', D)],
     note='one listed known finding: token equality ignores the sentence-relative head')
prop('C10', 'Annotators keep documents, sentences and tokens one to one and in order',
     'Every tagger, parser and composite processor yields exactly one document per input document, in input order, with the same '
     'text, sentences and tokens; prediction k of a sentence lands on token k of that sentence; only the layer the annotator is '
     'responsible for is replaced. What the TDozat wrapper is asked for as extras is attached to the token it was computed for, and nothing predicted for the documents '
     'of one call is used in a later call. A composite applies its processors left to right and enters and leaves each of them once.',
     ['inputs'], 'all document sequences with any number of sentences and tokens; composites of 0-3 processors',
     'no test runs an annotator on more than toy documents, and the neural and UDPipe ones are never run at all',
     ['babylondigger/tagger.py', 'babylondigger/parser.py', 'babylondigger/processor.py', 'babylondigger/wrappers/udpipe1_2.py',
      'babylondigger/wrappers/tdozat.py', 'babylondigger/neural/tagger/neural_tagger.py'],
     [('StubTagger', 'babylondigger/tagger.py'), ('UDPipeTagger', 'babylondigger/wrappers/udpipe1_2.py'),
      ('NeuralTagger', 'babylondigger/neural/tagger/neural_tagger.py')],
     note='external models are assumed to return one prediction per token')
prop('C11', 'Evaluation hides gold annotation from the tagger and scores its own output',
     'The documents an evaluation run hands to the tagger are the gold documents, in order, with the morphology and syntax of every '
     'token removed and everything else kept. The scores are those of exactly the documents the tagger returned against the '
     'complete gold corpus, gold on the gold side; when results are saved, the saved file is what is scored.',
     ['inputs'], 'all gold corpora and taggers, both tester kinds, with and without a results path',
     'the suite tests with taggers that ignore their input',
     [EV], [('TaggerTester.test', EV), ('DataSetTaggerTester', EV), ('FileTaggerTester', EV)],
     note='the written-and-read-back conversion is the subject of C07-C09, the metric of C22')
prop('C12', 'Model selection keeps the best candidate and deletes exactly the others',
     'Over the epochs of one training run, and over the parameter sets of a search, the candidate kept is the first one and '
     'thereafter each one strictly better by the comparison function than the best so far; its scores and its model are what is '
     'returned and tested. Every other candidate is disposed of exactly once, under the path it was stored at, and the kept one never.',
     ['histories'], 'all score sequences of up to 5 epochs / 4 parameter sets, all outcomes of the comparison',
     'the suite runs a single epoch with a stub and never disposes of anything',
     [EV], [('SingleSeedEvaluator.evaluate', EV), ('ParametersEstimator.params_search', EV)],
     note='candidate sequences unrolled to 5 epochs / 4 parameter sets')

X, B = 'babylondigger/features/extractors.py', 'babylondigger/features/builder.py'
prop('C14', 'Every vocabulary feature is an id inside the range the network is built for',
     'A word or subword feature maps each item of the vocabulary (the embedding file in file order, or the training items seen at '
     'least threshold times in sorted order) to consecutive ids after the reserved ones (0 padding, 1 unknown; for subwords also 2 '
     'start, 3 end), anything else to 1; subword sequences stand between start and end. The announced size is the number of ids, '
     'the reserved ones included, and each pre-trained vector is the initial value at the id of its own word. Embedding files '
     'with vectors of different lengths are rejected.',
     ['inputs'], 'all corpora, tokens, thresholds, vocabularies; embedding files of 0-3 arbitrary lines',
     'the suite uses one tiny corpus; it never checks sizes against ids or ties between vocabulary and initial values',
     [X], [('TrainableEmbeddingsExtractorBuilder', X), ('TokenCharactersFeatureExtractorBuilder', X),
           ('WordEmbeddingFeatureExtractorBuilder', X), ('_read_embeddings', X)],
     note='the file parser is unrolled to 3 lines; external segmenters are arbitrary functions')
prop('C16', 'Labels are numbered deterministically and decode to what they encode',
     'For POS (joint, in two, three or per-feature parts), lemma and suffix-rule labels, the values seen in the training corpus '
     '(rules: those seen more than threshold times) are numbered: the most frequent gets 0, the others follow in sorted order; an '
     'unseen value is encoded as 0, and the announced size is the number of values. Decoding puts exactly the numbered value on the '
     'token and keeps its other layers; an inapplicable rule gives the lower-cased text; characters are decoded up to the end mark.',
     ['inputs'], 'all training corpora with a token, all tokens, labels and thresholds; 0-2 decoded characters',
     'the suite covers one small corpus and few labels; it never decodes with other splittings or numbers ties',
     [X], [('PosDictFeatureExtractorBuilder', X), ('LemmaDictFeatureExtractorBuilder', X), ('CachedSuffixRulesBuilder', X),
           ('LemmaCharFeatureExtractorBuilder', X)],
     note='per-feature splitting is decided for its splitter only (2-4 parts); the numbering loop over its parts is not')

G, DS = 'babylondigger/evaluation/grid_eval.py', 'babylondigger/evaluation/dataset.py'
prop('C20', 'Grid search runs every combination once, on independent parameter sets',
     'A grid search evaluates exactly one parameter set per combination of one choice (one parameter) from each grid dimension. Each set is the base '
     'hyperparameters with the chosen parameters replaced (a nested one inside its parent, its siblings kept) and shares no mutable '
     'value with another set, the base or the grid. A parameter the base lacks, a dimension whose choices replace different parameters, and two '
     'dimensions varying the same one are rejected with ValueError before anything is evaluated.',
     ['inputs'], 'grids of 0-3 dimensions over nested hyperparameters, all values',
     'the suite has no grid evaluation at all',
     [G], [('main', G)], note='grids of 0-3 dimensions with 1-3 choices; parameter names concrete, values symbolic')
prop('C23', 'An evaluation run compares, averages and tests what its settings name',
     'A score is better than another iff its sum of the configured metric over the configured fields is strictly greater. An average '
     'is field-wise over all scores (an aligned accuracy only over those that have one, none if none has). A run evaluates every '
     'parameter set once per seed on the configured training and dev data, averages over seeds, tests the best model on the test '
     'set if there is one, and deletes models only on request, only below the model directory, and refuses to start if that is not empty.',
     ['inputs'], 'all scores, settings and parameter sets; 1-3 seeds, scores and parameter sets',
     'the suite never runs the evaluation program, averages or compares with several fields',
     [EV], [('main', EV), ('score_comparator', EV), ('get_metrics_averager', EV), ('AverageEvaluator', EV)],
     note='numbers are exact; 1-3 seeds, scores and parameter sets are unrolled')
prop('C24', 'Every pass over a data set yields every document exactly once',
     'A pass over a file data set reads the whole file anew. A pass over a shuffled data set yields every document of the underlying '
     'one exactly once: it is cut into consecutive groups of at most the maximal size (and more than half of it, the last one '
     'excepted), each of which is yielded permuted. Given a seed the order depends on nothing else, and every pass draws a new one.',
     ['inputs', 'histories'], 'all seeds and random choices; 0-5 documents, maximal group sizes 1-4, two passes',
     'the suite never iterates a shuffled data set',
     [DS], [('ShuffledDataset', DS), ('CoNLLUDataSet', DS)], note='0-5 documents and group sizes 1-4 are unrolled')

FB, FP = 'babylondigger/features/builder.py', 'babylondigger/features/provider.py'
NM, NW, NT = 'babylondigger/neural/model.py', 'babylondigger/neural/network.py', 'babylondigger/neural/tagger/neural_tagger.py'
prop('C15', 'Features of a batch are the union of the single features, padded and aligned',
     'The features of a batch of sentences are the union of what the configured builders extract item by item and in order, each '
     'list padded at its end with 0 (empty words for missing words) to the longest one of its level in the batch. Predicted label k '
     'of a sentence is interpreted on its token k, by every label interpreter, ignoring labels beyond the sentence. Shapes and '
     'initial values are united; a name extracted or initialised twice, or no builder at all, is rejected with ValueError.',
     ['inputs'], 'all feature values; up to 5 builders of several kinds, batches of 1-3 sentences of 1-3 tokens',
     'the suite never extracts features of a batch',
     [FB, FP], [('merge', FB), ('PaddingFeatureExtractor', FB), ('IterableInterpreter', FB), ('FeatureExtractorBuilderProvider', FP)],
     note='batches of 1-3 sentences of 1-3 tokens of 1-3 characters and up to 5 builders are unrolled; values symbolic')
prop('C17', 'Only input ids are replaced by the unknown id, each with the given probability',
     'When features are extracted with a rate r, every word, subword and character id of the input features is, independently of '
     'the others, replaced by the unknown id with probability r and kept otherwise. Padding, sentence lengths, rule applicability '
     'and labels are never replaced, and without a rate (prediction) nothing is.',
     ['inputs', 'random choices'], 'all ids, rates and draws; batches of 1-3 sentences of 1-3 tokens',
     'random replacement cannot be settled by sampling, and the suite never extracts features with a rate',
     [FB, FP], [('SparseFeatureExtractor', FB), ('wrap_word_level', FB), ('FeatureExtractorBuilderProvider', FP)],
     note='random.random() is uniform and independent; batches of 1-3 sentences of 1-3 tokens are unrolled')
prop('C18', 'A saved tagger, loaded again, is the one that was saved',
     'Loading a saved tagger gives the feature extractor, label interpreter and network that were saved: every tensor and operation '
     'of the network is the same-named one of the graph restored from the saved session, inputs are fed and outputs fetched under '
     'their names, and prediction, training and initialisation run the saved operations. Saving creates a missing directory. A lazily '
     'loaded tagger is loaded only when it tags, and its session is closed when it is done.',
     ['inputs', 'histories'], 'all networks, feature extractors, paths and documents',
     'the suite has no TensorFlow and never saves or loads a model',
     [NM, NW, NT], [('Model', NM), ('NeuralNetworkMapping', NW), ('NeuralTagger', NT), ('LazyNeuralTagger', NT)],
     note='pickle and the TensorFlow saver reproduce what they stored; 2 inputs, 2 outputs, 3 gold tensors, 2 initialisers')
prop('C27', 'Methods name their trainers; the baseline predicts the most frequent POS',
     'Every listed training method gives a new trainer of that method, any other name NotImplementedError. The baseline trainer gives '
     'one tagger, that gives every token the POS value most training tokens have (having none counts as a value) and its text as '
     'lemma; given a dev tester, the tagger is tested once and comes with its scores. The pretrained method trains nothing: given a '
     'dev tester, it tests every tagger saved in the model directory, in the order of their paths, and yields scores and tagger.',
     ['inputs'], 'all training documents, tested documents, directory contents and testers',
     'the suite trains the baseline on one corpus and never asks for a trainer by name',
     ['babylondigger/tagger.py', 'babylondigger/evaluation/trainers.py', NT],
     [('StubTaggerTrainer.train', 'babylondigger/tagger.py'), ('get_trainer', 'babylondigger/evaluation/trainers.py'), ('PretrainedTaggerTrainer.train', NT)],
     note='between equally frequent values the one counted first is taken')
prop('C25', 'A training run trains on every sentence once per epoch and saves, tests, yields',
     'A training run builds the network of the configured parts for the features of its training documents and initialises it with '
     'their initial values. Each epoch trains once on every sentence, in consecutive batches of the configured size, input features '
     'replaced at the configured rate and labels never, the configured dropout and a learning rate being fed; it then saves the '
     'tagger under the name of the epoch and, given a dev tester, yields its scores and the tagger. The session is closed at the end.',
     ['inputs', 'histories'], 'all hyperparameters and features; 1-3 documents of 0-3 sentences, batch sizes 1-4, 1-3 epochs',
     'the suite never trains: there is no TensorFlow to run',
     [NT, 'babylondigger/neural/tagger/network_provider.py'], [('NeuralTaggerTrainer.train', NT), ('_get_minibatches', NT)],
     note='documents, batch sizes and epochs within the bounds are unrolled; the learning-rate schedule is not specified')

prop('C04', 'A document is built exactly from tokens and sentences that fit together',
     'Building a document sorts its tokens by start, end and part index, and its sentences by start; one sentence is assumed when '
     'none are given. It raises ValueError when neighbouring tokens overlap (parts of one multiword token excepted), a part of a '
     'multiword token is skipped or repeated, or the sentences do not cover the tokens from first to last without gap or overlap; '
     'every other document is accepted. New tokens for a document must cover the same spans, or ValueError is raised, and keep its '
     'sentences.',
     ['inputs'], 'token lists of any length with any spans and parts, sentence lists of any length',
     'the suite builds about twenty documents; overlaps, parts and boundaries combine without bound',
     [D], [('Document.__init__', D), ('_WordList.__init__', D), ('Document.from_document', D)],
     note='unbounded lists against a reference constructor; in addition small documents (up to 3 tokens) are enumerated')
prop('C05', 'Heads have both views; tokens and sentences know their neighbours',
     'In a document, a token whose head is given as sentence index i of a sentence starting at s has document head i+s, and vice versa '
     '(-1, the root, in both views); views that disagree are rejected with ValueError. Token i of a document or sentence, or sentence '
     'i of a document, counts from the end when negative and raises IndexError outside; its head index is in the view of its '
     'container, its head is the token there (none for a root or without syntax), next and previous are its neighbours or none.',
     ['inputs'], 'all heads and offsets; documents of any length for tokens; documents of up to 4 tokens and 3 sentences for sentences',
     'the suite walks two documents; it never mixes views or indexes from the end',
     [D], [('Token.fill_heads', D), ('_NavigableItem', D), ('NavigableSentence', D)],
     note='sentence navigation is decided for documents of up to 4 tokens with symbolic heads')
prop('C06', 'Validated syntax is a tree in every sentence, or absent from it',
     'Building a document with syntax validation succeeds exactly when in every sentence either no token has a head, or one token is '
     'the root and every other token has a head inside its sentence from which the root is reached. Anything else (a partly specified '
     'sentence, several roots, a loop, a head outside the sentence) raises ValueError.',
     ['inputs'], 'all head assignments of sentences of up to 4 tokens, alone, before or behind other sentences',
     'the suite tries about ten trees; loops and cross-sentence heads depend on the whole assignment',
     [D], [('Document.__validate_syntax', D)],
     note='sentences of up to 4 tokens are unrolled')

prop('C07', 'What is written as CoNLL-U reads back the same',
     'Reading back what was written yields, regrouped by the sentence limit of the reader, the sentences and tokens of the documents '
     'written, in order: every token with its form, its place in a multiword token, and its lemma, morphology and syntax, absent ones '
     'absent, as far as writer and reader both cover the column. The text is the surface forms, each followed by one space where it '
     'was followed by white space or the end of the text.',
     ['inputs'], 'layers without tabs, line ends and lone "_"; documents of up to 3 sentences of up to 4 tokens; syntax complete or not read',
     'the suite reads back three small documents with full columns; absent layers, limits and column subsets are never combined',
     [IO], [('CoNLLUReader', IO), ('CoNLLUWriter', IO)],
     note='shapes, texts and columns enumerated, layers symbolic')
prop('C08', 'The CoNLL-U writer writes each token once, numbered, in ten columns',
     'Every token is written once, in order, as one row of ten tab-separated columns: its number, counted from 1 in each sentence, its '
     'form, then lemma, UPOS, XPOS, sorted features, head (0 for the root) and relation of the requested columns, "_" for what is '
     'absent; a token without head gets the number of its predecessor. A row with range and surface form precedes the words of a '
     'multiword token. SpaceAfter=No marks surface forms not followed by white space or the end. An empty line ends each sentence.',
     ['inputs'], 'all texts and layers; documents of up to 3 sentences of up to 5 tokens, all kinds of columns',
     'the suite compares five written documents',
     [IO], [('CoNLLUWriter', IO), ('to_conll', IO)],
     note='shapes and columns enumerated, texts and layers symbolic')
prop('C09', 'The CoNLL-U reader loses, invents and misplaces nothing',
     'Reading yields documents of as many sentences as the limit says, the last one of the rest; an empty line ends a sentence. The text is '
     'the forms of words and multiword ranges, each followed by a space unless marked SpaceAfter=No; words have the span of their form, '
     'words of a range its span, their part number and their form. Layers are those of the requested columns ("_" absent, head 0 the root). '
     'Comments and empty nodes are skipped. Ending a sentence inside a range is an error. Syntax is validated and the file closed.',
     ['inputs', 'histories'], 'all cell contents; scripts of up to 9 lines of all kinds (and 102 lines for the default limit), all kinds of columns',
     'the suite reads five small files; it never has empty nodes in ranges, missing ends or limits inside documents',
     [IO], [('CoNLLUReader', IO), ('_line_parser', IO)],
     note='line scripts, limits and columns enumerated; cells symbolic')

LR = 'babylondigger/lemmas/transformation_rules.py'
prop('C13', 'A suffix rule turns its word into its lemma, and is found where it applies',
     'The rule derived from a word and a lemma keeps their longest common beginning, replaces what is left of the word by what is '
     'left of the lemma, and is an exception iff nothing is kept. A rule is applicable to the texts that end in its word suffix, '
     'which applying it replaces; other texts give ValueError. Rules are equal, and hash alike, iff their suffixes and kinds are, '
     'and are totally ordered. The applicability feature of a token marks the regular rules whose word suffix is a proper suffix of '
     'its lower-cased text and the exceptions whose word suffix is that text, and no others.',
     ['inputs'], 'all words, lemmas, rules and texts; rule look-up: up to 2 rules and 3 characters (and 1 rule/4, 3 rules/1)',
     'the suite derives six rules and looks up four words in one trie',
     [LR, X], [('LemmaSuffixTransformation', LR), ('LemmaTransformationTrie', LR), ('ApplicableSuffixTransformations', X)],
     note='look-up is decided over endings and texts made of two different, otherwise arbitrary characters')

NB = 'babylondigger/neural/tagger/network_provider.py'
NU = 'babylondigger/neural/utils.py'
SB = 'babylondigger/neural/tagger/shared_builders.py'
TB = 'babylondigger/neural/tagger/task_builders.py'
NN = 'babylondigger/neural/network.py'
prop('C21', 'The network a configuration describes fits its features and labels',
     'The graph built for a configuration has exactly one input per feature its extractors compute, one gold tensor per label, and one '
     'output per label, of the rank, fixed widths and element type of those values; every input is used. Ids look up a matrix with the '
     'announced number of rows. After all variables are initialised, exactly the matrices of pretrained features are set, to their '
     'announced rows. A label part is predicted as the best of as many scores as it has classes; rules that are not applicable get the '
     'least score.',
     ['configurations', 'inputs'], '38 configurations with every shared part, feature kind, segmenter, aggregator, skip connection, '
     'splitting and task; all sizes, vocabularies and training data',
     'the suite trains three tiny networks; wiring mistakes train without an error',
     [NB, NN, SB, TB, NU], [('get_nn_builder', NB), ('MultitaskNetworkBuilder.build', NN), ('subwords_features_builder', NU)],
     note='configurations enumerated; the graph of TensorFlow operations is analysed as constructed, operations are not interpreted')

prop('C26', 'Training minimises the masked cross entropy of all labels, as configured',
     'The loss is the sum, over all tasks and all parts of their labels, of the cross entropy between the scores the part is predicted '
     'from and its gold labels (sigmoid over rules for the binary task, softmax elsewhere), summed over the tokens of the sentences only, '
     'divided by their number (and, for characters, by the word length limit), times the configured weight of the part. Each variable '
     'gets its gradient, clipped by the global norm, from the configured optimiser with the fed learning rate. Dropout keeps with the fed '
     'probability, by default everything. The seed given is set before variables are made. Other optimisers and no task are errors.',
     ['configurations', 'inputs'], '14 configurations with every task, splitting and kind of weights; all sizes, label sets and batches',
     'the suite trains three tiny networks and asserts nothing about the loss',
     [TB, NN, NU], [('DenseTaskNetworkBuilder', TB), ('LemmaCOMBOTaskNetworkBuilder._loss', TB), ('MultitaskNetworkBuilder._optimizer', NN)],
     note='configurations enumerated; TensorFlow operations are taken to mean what their documentation says')

prop('C02', 'Values of the data model cannot be changed from outside',
     'What a POS value, extras, a token, a document token, a sentence or a document says never changes. Overwriting the dictionaries and '
     'lists it was made from (nested ones included), using any of its public members, or overwriting whatever those hand out leaves all '
     'its other members as they were; the same holds for values made from it by updating extras, or by giving a document new tokens. '
     'Constructors and members leave the lists and dictionaries they are given as they were.',
     ['inputs', 'histories'], 'all public members of every class, present and absent features, extras and heads, tokens in and out of order',
     'aliasing shows only when a caller changes a value after the fact; no test does',
     [D], [('Pos', D), ('TokenExtras', D), ('Document', D)],
     note='documents of up to four tokens; attributes with a leading underscore are internal')

prop('C19', 'Files are UTF-8 and always closed; sessions are released on failure',
     'Every text file the package opens by path itself (corpora, settings, embeddings, parameters) is read and written as '
     'UTF-8 whatever the locale, and is closed however its use ends: return, exception, or a reader given up half way. When starting the '
     'TDozat wrapper or loading a neural model fails at any step, the TensorFlow session already opened is closed and the error is passed '
     'on; leaving the TDozat wrapper closes its session, and outside of its context processing is refused with RuntimeError.',
     ['inputs', 'crash points'], 'all call sites that open a file; failure of every call while a session is started or in use',
     'tests run with one locale, and never see a file or session leak when something fails',
     ['babylondigger/evaluation/' + 'conllu_io.py', 'babylondigger/evaluation/' + 'evaluation.py', 'babylondigger/evaluation/' + 'conll17_ud_eval.py', 'babylondigger/neural/model.py', 'babylondigger/wrappers/tdozat.py'],
     [('CoNLLUReader.read_from_file', 'babylondigger/evaluation/' + 'conllu_io.py'), ('TDozatDocumentProcessor.__enter__', 'babylondigger/wrappers/tdozat.py'),
      ('Model.load', 'babylondigger/neural/model.py')],
     note='files opened by argparse for the command line of the metric are left out; a generator that was never started holds nothing',
     tech='static analysis: rules over the syntax tree for every site that opens a file; typestate of sessions by abstract interpretation '
          'with failing calls')

prop('C22', 'Metrics count what the CoNLL 2017 task counts; broken treebanks are refused',
     'Precision, recall, F1 and aligned accuracy of every metric (Tokens, Sentences, Words, UPOS, XPOS, Feats, AllTags, Lemmas, UAS, LAS, CLAS, '
     'WeightedLAS) are the ratios of correct to system, gold, both and aligned (weighted) units; words are aligned by their span of '
     'characters and, inside of multiword tokens, by the longest common subsequence of their forms without case; a head is correct if it '
     'is the root in both or aligned with the gold head; subtypes of relations are ignored. A treebank with a cycle, not exactly one '
     'root, a head outside of its sentence, wrong identifiers or numbers of columns, an empty form or no final empty line, and treebanks '
     'of different characters are refused with UDError.',
     ['inputs'], 'all lemmas, tags, features, relations and weights, for every enumerated pair of tokenisations, sentences and trees',
     'the suite aligns some fixed words and checks few metrics',
     ['babylondigger/evaluation/conll17_ud_eval.py'],
     [('load_conllu', 'babylondigger/evaluation/conll17_ud_eval.py'), ('evaluate', 'babylondigger/evaluation/conll17_ud_eval.py'),
      ('load_deprel_weights', 'babylondigger/evaluation/conll17_ud_eval.py')],
     note='tokenisations of up to 6 words; which of several longest common subsequences is taken is left open, as are words that straddle '
          'the beginning of multiword tokens; numbers are exact')

TECH = ('static analysis: abstract interpretation of the source over a gated value-flow (value-numbering) domain, compared with a '
        'reference summary')


UNBOUNDED = {'C01', 'C03', 'C04', 'C10', 'C11', 'C14', 'C16'}


def LEVEL(i):
    return 'proof' if i in UNBOUNDED else 'other'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['claimed']:
            m['checks'].append({
                'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'],
                'technique': p.get('tech') or TECH, 'level': LEVEL(p['id']),
                'level_note': ('' if LEVEL(p['id']) == 'proof' else 'Exhaustive static analysis of bounded shapes with symbolic contents. ') +
                'Sound up to the stated engine assumptions (DESIGN.md): ' + (p['note'] or 'none beyond DESIGN.md')})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
