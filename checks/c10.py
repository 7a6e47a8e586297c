"""Annotators yield one document per input document, in order, and change only the layers they predict."""
from .base import *
from .docmodel import *
from engine.terms import ELEM_OF
from engine import valuate

RULE = ('for every sequence of documents, any number of sentences and tokens: the summary of each annotator equals the '
        'summary of the reference annotator below (one derived document per input document, in input order, every token '
        'present in order with its other layers unchanged)')
ASSUMPTIONS = ['external models (UDPipe, TDozat, TensorFlow) return one prediction per token',
               'Document.from_document keeps document text and sentence boundaries (C04/C02)']

# words of UDPipe: texts and whole numbers
ATTR_KINDS.update({'head': ('int', False), 'upostag': ('str', False), 'xpostag': ('str', False)})

SPEC = '''
from babylondigger.datamodel import Token, Document, Pos
import ufal.udpipe as ud

def stub_tag(pos, docs):
    return [Document.from_document(d, [Token.with_morphology(t, pos, t.text) for t in d.tokens]) for d in docs]

def stub_parse(deprel, docs):
    result = []
    for d in docs:
        toks = []
        for s in d.sentences:
            for j, t in enumerate(s.tokens):
                toks.append(Token.with_syntax(t, deprel, head_sentence_index=j - 1))
        result.append(Document.from_document(d, toks))
    return result

def neural(annotated, docs):
    return [Document.from_document(d, [t for s in d.sentences for t in annotated(s)]) for d in docs]

def some(x):
    return x if x else None

def udpipe(calls, docs):
    result = []
    for d in docs:
        toks = []
        for s in d.sentences:
            u = ud.Sentence()
            for t in s.tokens:
                w = u.addWord(t.text)
                if t.lemma:
                    w.lemma = t.lemma
                if t.pos:
                    if t.pos.upos:
                        w.upostag = t.pos.upos
                    if t.pos.xpos:
                        w.xpostag = t.pos.xpos
                    if t.pos.feats:
                        w.feats = "|".join(sorted("{}={}".format(k, v) for k, v in t.pos.feats.items()))
            calls(u)
            for t, w in zip(s.tokens, u.words[1:]):
                feats = None
                if w.feats:
                    feats = {e.split("=")[0]: e.split("=")[1] for e in w.feats.split("|")}
                pos = None
                if w.upostag or w.xpostag or feats:
                    pos = Pos(some(w.upostag), some(w.xpostag), feats)
                t = Token.with_morphology(t, pos, some(w.lemma))
                head = w.head - 1 if w.head is not None and w.head >= 0 else None
                toks.append(Token.with_syntax(t, some(w.deprel), head_sentence_index=head))
        result.append(Document.from_document(d, toks))
    return result

def tag(model, options):
    return lambda u: model.tag(u, options)

def parse(model, options):
    return lambda u: model.parse(u, options)

def both(model, options):
    def f(u):
        model.tag(u, options)
        model.parse(u, options)
    return f

def compose(ps, docs):
    for p in ps:
        docs = p.process(docs)
    return docs
'''


def setup(chk, extra=None):
    it = record_documents(install_docs(chk.interp()), extra)
    it.define(SPEC)
    docs = sym('docs', 'list')
    ELEM_TYPE[docs] = lambda i: mk('obj', DOC, 'doc', i)
    return it, it.start(), docs


def listed(it, v, s):
    return it.new_list(s, it.iter_segs(v, s, None, None))


def annotator(chk, cls, args, meth, spec, sargs, name, effects=False, extra=None):
    it, st, docs = setup(chk, extra)
    c = chk.anchor(it, cls)
    anchor = '%s.%s' % (cls, meth)

    def got(s):
        o = it.call(c, list(args), {}, None, s, None)
        return listed(it, it.call_method(o, meth, [docs], None, s, None), s)

    def want(s):
        return listed(it, it.call(it.glob('spec:' + spec), sargs(it, s) + [docs], {}, None, s, None), s)
    chk.same(name, anchor, it, st, got, want, effects=effects)


def ud_external(I, f, args, kw, fr, st, node):
    if f.op == 'ext' and f.args[0] == 'ufal.udpipe.Sentence':
        return mk('sym', 'ud_sentence')


def ann_tokens(s):
    j = fresh_bv()
    return (('gen', j, ntoks(s), (('el', mk('obj', TOK, 'ann', s, j)),)),)


def neural_external(I, f, args, kw, fr, st, node):
    """get_features, predict and interpret work sentence by sentence: interpret(S, predict(get_features(S))) is the list,
    in order, of the annotated tokens of every sentence of S"""
    if f.op != 'attr' or f.args[0] not in (FE, NET, INT):
        return None
    if f.args[0] is FE and f.args[1] == 'get_features' and len(args) == 1 and not kw:
        return mk('features_of', I.freeze(I.new_list(st, I.iter_segs(args[0], st, fr, node)), st))
    if f.args[0] is NET and f.args[1] == 'predict' and len(args) == 1:
        return mk('prediction_of', args[0])
    if f.args[0] is INT and f.args[1] == 'interpret' and len(args) == 2:
        segs = I.iter_segs(args[0], st, fr, node)
        p = args[1]
        x = I.freeze(I.new_list(st, segs), st)
        if p.op == 'prediction_of' and p.args[0].op == 'features_of' and p.args[0].args[0] is x:
            return I.new_list(st, map_segs(I, st, segs, lambda z, s: mk('frz', 'list', ann_tokens(s), kind='list')))
        if p.op == 'prediction_of' and p.args[0].op == 'features_of':
            raise Bad('the prediction for %s is attached to %s' % (show(p.args[0].args[0])[:200], show(x)[:200]))
    return None


FE, NET, INT = sym('feature_extractor'), sym('network'), sym('interpreter')


def neural(chk):
    it, st, docs = setup(chk, neural_external)
    c = chk.anchor(it, 'babylondigger.neural.tagger.neural_tagger:NeuralTagger')

    def got(s):
        o = it.call(c, [FE, NET, INT], {}, None, s, None)
        return listed(it, it.call_method(o, 'process', [docs], None, s, None), s)

    def want(s):
        out = []
        i = fresh_bv()
        d = mk('obj', DOC, 'doc', i)
        toks = map_segs(it, s, sent_segs(d, lambda x: ann_tokens(x)), lambda z, t: layers(it, z, t))
        return it.new_list(s, (('gen', i, len_(docs), (('el', mk('newdoc', d, mk('frz', 'list', toks))),)),))
    chk.same('NeuralTagger annotates every sentence of every document in order',
             'babylondigger.neural.tagger.neural_tagger:NeuralTagger.tag', it, st, got, want)


def lazy(chk):
    it, st, docs = setup(chk)
    q = 'babylondigger.neural.tagger.neural_tagger:'
    c = chk.anchor(it, q + 'LazyNeuralTagger')
    base = it.call_hook

    def hook(I, f, args, kw, fr, s, node):
        fn = f.args[0] if f.op == 'bm' else f
        if fn.op == 'fn' and I.qual(I.funcs[fn.args[0]]) == q + 'NeuralTagger.load':
            return mk('obj', q + 'NeuralTagger', args[-1])
        if fn.op == 'fn' and I.qual(I.funcs[fn.args[0]]) == q + 'NeuralTagger.tag':
            return mk('attr', args[0], 'annotated', args[1], kind='list')
        return base(I, f, args, kw, fr, s, node)
    it.call_hook = hook
    it.method_model[q + 'NeuralTagger', 'tag'] = lambda I, s, o, a, k: mk('annotated', o, I.freeze(a[0], s), kind='list')
    it.method_model[q + 'NeuralTagger', '__enter__'] = lambda I, s, o, a, k: o
    it.method_model[q + 'NeuralTagger', '__exit__'] = lambda I, s, o, a, k: NONE
    path = sym('path', 'str')

    def got(s):
        o = it.call(c, [path], {}, None, s, None)
        return listed(it, it.call_method(o, 'process', [docs], None, s, None), s)

    def want(s):
        return it.new_list(s, (('spl', mk('annotated', mk('obj', q + 'NeuralTagger', path), docs, kind='list')),))
    chk.same('LazyNeuralTagger yields what the tagger saved at its path yields', q + 'LazyNeuralTagger.tag', it, st, got, want)


def composite(chk):
    it, st, docs = setup(chk)
    q = 'babylondigger.processor:DocumentComplexProcessor'
    c = chk.anchor(it, q)
    ps = sym('processors', 'list')
    for n in (0, 1, 2, 3):
        procs = [sym('p%d' % i) for i in range(n)]

        def got(s, lazy):
            a = it.new_iter(s, tuple(('el', p) for p in procs)) if lazy else it.new_list(s, tuple(('el', p) for p in procs))
            o = it.call(c, [a], {}, None, s, None)
            it.call_method(o, 'process', [sym('warmup', 'list')], None, s, None)
            return it.call_method(o, 'process', [docs], None, s, None)

        def want(s):
            it.call(it.glob('spec:compose'), [it.new_list(s, tuple(('el', p) for p in procs)), sym('warmup', 'list')], {}, None, s, None)
            return it.call(it.glob('spec:compose'), [it.new_list(s, tuple(('el', p) for p in procs)), docs], {}, None, s, None)
        for lz in (False, True):
            chk.same('composite of %d processors (%s) applies each once, in order, on every call' % (n, 'iterator' if lz else 'list'),
                     q + '.process', it, st, lambda s: got(s, lz), want)


TD = 'babylondigger.wrappers.tdozat:'
SPEC_TD = '''
import babylondigger.evaluation.conllu_io as io
from babylondigger.datamodel import Token, Document

def previous(head):
    if head is None:
        return None
    return -1 if head == 0 else head - 1

def cell(said, name, row, place):
    return said[name][row][place] if name in said else '_'

def predicted(said, rows, names, docs):
    result = []
    done = 0
    for d in docs:
        toks = []
        for s in d.sentences:
            row = rows[done]
            for j, t in enumerate(s):
                line = [said['id'][row][j + 1]] + [cell(said, n, row, j + 1) for n in ('form', 'lemma', 'upos', 'xpos', 'ufeats', 'dephead', 'deprel', 'semrel', 'misc')]
                x = io.default_line_parser(line)
                t = Token.with_syntax(Token.with_morphology(t, pos=x.pos, lemma=x.lemma), deprel=x.deprel, head_sentence_index=previous(x.head))
                toks.append(Token.update_extras(t, {n: said[n][row][j + 1] for n in names}))
            done += 1
        result.append(Document.from_document(d, toks))
    return result
'''
OUT, ROWS = sym('outputs'), sym('rows', 'list')
SAID = mk('attr', OUT, 'predictions')
COLUMNS = ('id', 'form', 'lemma', 'upos', 'xpos', 'ufeats', 'dephead', 'deprel', 'semrel', 'misc')
valuate.POOL_OF.update({'cell of dephead': ('0', '1', '2', '_'), 'cell of ufeats': ('_', 'A=1', 'A=1|B=2'), 'cell of id': ('1', '2', '3')})


def column(name):
    """what is said in one column: texts for every row and place"""
    ELEM_OF['column of ' + name] = lambda c, row: mk('attr', c.args[0], 'row of ' + name, row, kind='list')
    ELEM_OF['row of ' + name] = lambda r, place: mk('attr', r.args[0], 'cell of ' + name, r.args[2], place, kind='str')
    return mk('attr', SAID, 'column of ' + name, kind='list')


def said(name):
    n = cval(name) if name.op == 'const' else None
    return column(n) if n in COLUMNS else mk('item', SAID, name)


ELEM_TYPE[SAID] = said


def tdozat_external(I, f, args, kw, fr, st, node):
    """the parser library answers, for every column it has, one value per (row, place); ROWS are the rows in the order of
    the sentences it was given, and the first place of a row is the root of the sentence"""
    if f.op == 'attr' and f.args[1] == 'get' and len(args) == 2 and cval(args[1]) == 'network_class':
        return const(KIND[0])
    if f.op == 'ext' and f.args[0].endswith('GraphOutputs'):
        return OUT
    if f.op == 'ext' and f.args[0].endswith('.Session'):
        return sym('session', 'session')
    if f.op == 'attr' and f.args[1] == 'build_graph':
        parts = {}
        for a, b in PATHS:
            parts.setdefault(a, []).append(('kv', const(b), const('layer %s %s' % (a, b))))
        return tup(I.new_dict(st, tuple(('kv', const(a), I.new_dict(st, tuple(x))) for a, x in parts.items())), sym('tokens'))
    if f.op == 'ext' and f.args[0] == 'numpy.argsort' and len(args) == 1:
        return ROWS
    if f.op == 'attr' and f.args[1] == 'cache_predictions' and f.args[0] is OUT and len(args) == 2 and not kw:
        CALLS['cache of'], CALLS['cache'] = I.freeze(args[0], st), I.freeze(args[1], st)
        return NONE
    if f.op == 'attr' and f.args[1] == 'run' and args and 'feed_dict' in kw:
        CALLS['fetch'] = CALLS.get('fetch', ()) + (I.freeze(args[0], st),)
        CALLS['feed'] = CALLS.get('feed', ()) + (I.freeze(kw['feed_dict'], st),)
    if f.op == 'ext' and f.args[0].endswith('CoNLLUDataset.__init__') and len(args) > 1:
        CALLS['documents'] = I.freeze(args[1], st)
    return None


CALLS = {}
KIND = ['ParserNetwork']
PATHS = [('deptree', 'recur_layer'), ('upos', 'recur_layer'), ('upos', 'hidden_layer'), ('xpos', 'hidden_layer'), ('xpos', 'own')]


def within(x, t):
    if isinstance(t, T):
        return t is x or any(within(x, c) for c in t.args)
    return isinstance(t, tuple) and any(within(x, c) for c in t)


def computed(chk, it, s, got, extras):
    """what is computed for a batch of sentences is kept for these sentences"""
    A = TD + 'TDozatDocumentProcessor.process'
    CALLS.clear()
    _, z, _ = it.run(got, s.copy())
    if not {'cache', 'fetch', 'feed', 'documents'} <= set(CALLS):
        raise Undecided('the model is run in another way')
    chk.eq('the parser gets the documents in order', A, CALLS['documents'], mk('frz', 'list', (('spl', sym('docs', 'list')),), kind='list'), s)
    chk.must('what is kept for a batch was computed for it%s' % (' (extras)' if extras else ''), A, within(CALLS['cache'], CALLS['feed']),
             'it is kept for %s' % show(CALLS['cache'])[:200])
    calls = list(logged(z.heap[LOG][1]))
    named = lambda n: [e for e in calls if e[1].op == 'attr' and e[1].args[1] == n]
    runs, preds, kept = named('run'), named('probs_to_preds'), named('update') + [[CALLS['cache of']]]
    runs = [e for e in runs if any(k is e[-1] for p in preds for k in parts_of(tup(*p)))]
    if len(preds) == 1 and len(runs) == 1:
        chk.must('what is predicted is kept', A, any(within(preds[0][-1], x) for e in kept for x in e), 'no predictions are kept')
        if extras:
            chk.must('the extras are kept', A, any(within(mk('item', r[-1], ONE), x) for r in named('run') for e in kept for x in e),
                     'no extras are kept')
    if not extras:
        return
    asked = [x for x in CALLS['fetch'] if within(const('layer %s %s' % extras[0][1]), x)]
    chk.must('the extras asked for are computed', A, bool(asked), 'only %s' % show(CALLS['fetch'][-1])[:200])
    d = [x for x in parts_of(asked[-1]) if x.op == 'frz' and x.args[0] == 'dict'] if asked else ()
    if len(d) != 1:
        raise Undecided('extras are fetched in another way')
    want = mk('frz', 'dict', tuple(('kv', const(n), const('layer %s %s' % path)) for n, path in extras), kind='dict')
    chk.eq('every extra is what the model has at its place', A, unordered(d[0]), unordered(want), State({}, ()))


def logged(segs):
    """the calls among the events"""
    for g in segs:
        if g[0] == 'el' and g[1].op == 'tup':
            e = [x[1] for x in g[1].args[0] if x[0] == 'el']
            if cval(e[0]) == 'call':
                yield e
        elif g[0] == 'gs':
            yield from logged(g[2])
        elif g[0] == 'gen':
            yield from logged(g[3])


def parts_of(t):
    yield t
    for c in t.args:
        for x in (c if isinstance(c, tuple) else (c,)):
            if isinstance(x, T):
                yield from parts_of(x)
            elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], T):
                yield from parts_of(x[1])


def tdozat(chk, cls, flags, given, extras):
    """a wrapper made with flags (names of keyword arguments) and the extra fields given; all extras in the end"""
    ELEM_TYPE[ROWS] = lambda i: mk('row', i, kind='int')
    it, st, docs = setup(chk, tdozat_external)
    it.define(SPEC_TD, 'parsing')
    st = it.start()
    c = chk.anchor(it, TD + cls)
    names = [n for n, _ in extras]
    KIND[0] = 'TaggerNetwork' if cls == 'TDozatTagger' else 'ParserNetwork'

    def make(s):
        where = it.new_dict(s, tuple(('kv', const(n), tup(*map(const, p))) for n, p in given))
        args = [sym('directory', 'str')] + [sym('settings', 'str')] * (cls == 'TDozatDocumentProcessor')
        return it.call(c, args, dict({n: TRUE for n in flags}, extra_fields=where), None, s, None)
    o, s, raises = it.run(make, st)
    if o is None:
        raise Undecided('the wrapper cannot be made')
    for r in raises:
        chk.never('%s: a model of its kind is accepted' % cls, TD + cls, State({}, r.st.pc), '%s at %s' % (show(r.exc)[:60], r.where))
    if cls != 'TDozatDocumentProcessor':
        KIND[0] = 'ParserNetwork' if cls == 'TDozatTagger' else 'TaggerNetwork'
        o2, _, raises = it.run(make, st)
        chk.must('%s: a model of another kind is not accepted' % cls, TD + cls,
                 any(r.exc.op == 'exc' and r.exc.args[0] == 'ValueError' for r in raises), 'it is accepted')
    _, s, _ = it.run(lambda z: it.call_method(o, '__enter__', [], None, z, None), s)
    if s is None:
        raise Undecided('the wrapper cannot be entered')

    def got(z):
        meth = {'TDozatTagger': 'tag', 'TDozatParser': 'parse'}.get(cls, 'process')
        return listed(it, it.call_method(o, meth, [docs], None, z, None), z)

    def want(z):
        return it.call(it.glob('parsing:predicted'), [SAID, ROWS, it.new_list(z, tuple(('el', const(n)) for n in names)), docs], {}, None, z, None)
    chk.same('%s: every token gets what the parser said about its place%s' % (cls, ' and its extras' if extras else ''),
             TD + 'TDozatDocumentProcessor.process', it, s, got, want)
    computed(chk, it, s, got, extras)
    forgotten(chk, it, s, got)


def forgotten(chk, it, s, got):
    """what the parser said about these documents is not there when the next ones come"""
    A = TD + 'TDozatDocumentProcessor.process'
    v, z, _ = it.run(got, s.copy())
    if z is None:
        return
    events, n = z.heap[LOG][1], len(s.heap[LOG][1])
    if events[:n] != s.heap[LOG][1] or any(e[0] == 'spl' for e in events[n:]):
        raise Undecided('the order of events')
    events = events[n:]
    texts = [show(e) for e in events]
    sets = [e[1] for e in events if e[0] == 'el' and "'setattr'" in show(e[1])[:20]]
    sets = [[x[1] for x in e.args[0]] for e in sets]
    mine = [e for e in sets if len(e) == 4 and e[1] is OUT and cval(e[2]) == 'predictions']
    other = [t for t, e in zip(texts, events) if 'outputs.predictions' in t.split(',')[1] or e[0] != 'el' and "'setattr'" in t]
    if not mine and other:
        raise Undecided('the predictions are changed otherwise')
    chk.must('predictions of earlier documents are dropped', A, bool(mine), 'nothing empties outputs.predictions')
    if mine:
        empty = mk('frz', 'dict', (('kv', const('indices'), mk('frz', 'list', (), kind='list')),), kind='dict')
        chk.eq('predictions of earlier documents are dropped: nothing remains', A, mine[-1][3], empty, z)


SPEC_SENTS = '''
import babylondigger.evaluation.conllu_io as io

def lines(d):
    result = []
    for s in d.sentences:
        result.append([io.to_conll(io.default_column_extractors, j, t, fake_heads=False) for j, t in enumerate(s)])
    result.append([])
    return result
'''


def sentences(chk):
    """the parser is given the lines of every sentence"""
    it, st, docs = setup(chk)
    it.define(SPEC_SENTS, 'lines')
    st = it.start()
    ATTR_KINDS['head_index'] = ('int', True)
    it.attr_model[TOK, 'head_index'] = lambda I, s, t: attr(t, 'head_index')
    d = mk('obj', DOC, 'given')
    c = it.glob(TD + '_DocumentDataset')
    if c is None:
        raise Undecided('the data set is elsewhere')
    chk.same('the parser is given the lines of every sentence, in order', TD + '_DocumentDataset.itersents', it, st,
             lambda s: listed(it, it.call_method(c, 'itersents', [d], None, s, None), s),
             lambda s: it.call(it.glob('lines:lines'), [d], {}, None, s, None))


def check(chk):
    W = 'babylondigger.wrappers.udpipe1_2:'
    m, opt = sym('model'), sym('options', 'str')
    pos, dep = sym('pos'), sym('deprel', 'str', nullable=True)
    for meth in ('tag', 'process'):
        chk.group('StubTagger', 'babylondigger.tagger:StubTagger.' + meth, annotator, chk, 'babylondigger.tagger:StubTagger',
                  [pos], meth, 'stub_tag', lambda it, s: [pos], 'StubTagger.%s' % meth)
    for meth in ('parse', 'process'):
        chk.group('StubParser', 'babylondigger.parser:StubParser.' + meth, annotator, chk, 'babylondigger.parser:StubParser',
                  [dep], meth, 'stub_parse', lambda it, s: [dep], 'StubParser.%s' % meth)
    for cls, fn, ms in (('UDPipeTagger', 'tag', ('tag', 'process')), ('UDPipeParser', 'parse', ('parse', 'process')),
                        ('UDPipeTaggerParser', 'both', ('parse', 'process'))):
        for meth in ms:
            chk.group(cls, W + cls + '.' + meth, annotator, chk, W + cls, [m, opt], meth, 'udpipe',
                      lambda it, s, fn=fn: [it.call(it.glob('spec:' + fn), [m, opt], {}, None, s, None)],
                      '%s.%s' % (cls, meth), ('addWord', 'tag', 'parse'), ud_external)
    chk.group('NeuralTagger', 'babylondigger.neural.tagger.neural_tagger:NeuralTagger.tag', neural, chk)
    chk.group('LazyNeuralTagger', 'babylondigger.neural.tagger.neural_tagger:LazyNeuralTagger.tag', lazy, chk)
    chk.group('DocumentComplexProcessor', 'babylondigger.processor:DocumentComplexProcessor.process', composite, chk)
    own = [('own', ('xpos', 'own'))]
    for cls, flags, given, names in (
            ('TDozatDocumentProcessor', (), [], []), ('TDozatDocumentProcessor', (), own, own),
            ('TDozatParser', ('parser_recur_layer',), own, [('parser_recur_layer', ('deptree', 'recur_layer'))] + own),
            ('TDozatTagger', ('tagger_recur_layer', 'upos_hidden', 'xpos_hidden'), own,
             [('tagger_recur_layer', ('upos', 'recur_layer')), ('upos_hidden', ('upos', 'hidden_layer')),
              ('xpos_hidden', ('xpos', 'hidden_layer'))] + own), ('TDozatTagger', ('upos_hidden',), [], [('upos_hidden', ('upos', 'hidden_layer'))]),
            ('TDozatParser', (), [], [])):
        chk.group(cls, TD + cls + '.process', tdozat, chk, cls, flags, given, names)
    chk.group('TDozat sentences', TD + '_DocumentDataset.itersents', sentences, chk)
