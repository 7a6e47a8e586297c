"""Features of a batch: composition, padding, interpretation, initial values."""
from .base import *
from .docmodel import *

B = 'babylondigger.features.builder:'
V = 'babylondigger.features.provider:'
RULE = ('for every combination of word-level and sentence-level builders up to the sizes below and all feature values: the '
        'features of a batch are the union of what the builders extract, item by item and in order, padded with 0 to the '
        'longest sibling at every level; each predicted label is interpreted on the token at its position, by every '
        'interpreter; shapes and initial values are united; a name extracted or initialised twice is rejected with ValueError')
ASSUMPTIONS = ['batches of 1-3 sentences of 1-3 tokens of 1-3 characters; up to 5 builders']

SPEC = '''
from babylondigger.features.builder import FeatureExtractorInterface, InterpreterInterface, FeatureInitializerInterface
from babylondigger.features.builder import FeatureExtractorBuilder, DoNothingInterpreter, EmptyFeatureInitializer
from babylondigger.features.builder import EmptyFeatureExtractorBuilder, merge, wrap_word_level, wrap_sentence_level
from babylondigger.features.provider import FeatureExtractorBuilderProvider, AbstractExtractorBuilderProvider

class LeafExtractor(FeatureExtractorInterface):
    def __init__(self, name, f, dataset):
        self.name, self.f, self.dataset = name, f, dataset
    def get_features(self, obj, **kwargs):
        return {self.name: self.f(self.dataset, obj)}

class LeafInterpreter(InterpreterInterface):
    def __init__(self, name, g, dataset):
        self.name, self.g, self.dataset = name, g, dataset
    def interpret(self, obj, value):
        return self.g(self.dataset, obj, value[self.name])

class LeafInitializer(FeatureInitializerInterface):
    def __init__(self, name, dataset):
        self.name, self.dataset = name, dataset
    def shapes(self):
        return {self.name: [shape_of(self.name, self.dataset)]}
    def initial_values(self):
        return {self.name: values_of(self.name, self.dataset)}

class Leaf(FeatureExtractorBuilder):
    def __init__(self, name, f, g=None, quiet=False):
        self.name, self.f, self.g, self.quiet = name, f, g, quiet
    def build(self, dataset):
        return (LeafExtractor(self.name, self.f, dataset),
                DoNothingInterpreter() if self.g is None else LeafInterpreter(self.name, self.g, dataset),
                EmptyFeatureInitializer() if self.quiet else LeafInitializer(self.name, dataset))

class OtherLeaf(Leaf):
    pass

class LeafProvider(AbstractExtractorBuilderProvider):
    def __init__(self, features, labels):
        self.f, self.l = features, labels
    def feature_extractor_builder(self):
        return EmptyFeatureExtractorBuilder() if self.f is None else self.f
    def labels_extractor_builder(self):
        return EmptyFeatureExtractorBuilder() if self.l is None else self.l

def shape_of(name, dataset): pass
def values_of(name, dataset): pass

def pad_words(f, dataset, sentences):
    n = max([len(s) for s in sentences])
    return [[f(dataset, t) for t in s] + [0] * (n - len(s)) for s in sentences]

def pad_chars(f, dataset, sentences):
    rows = [[f(dataset, t) for t in s] for s in sentences]
    n = max([len(s) for s in sentences])
    m = max([len(w) for r in rows for w in r])
    rows = [r + [[]] * (n - len(r)) for r in rows]
    return [[w + [0] * (m - len(w)) for w in r] for r in rows]

def per_sentence(f, dataset, sentences):
    return [f(dataset, s) for s in sentences]
'''
DATA = sym('dataset')
NON_NONE.update(('word_fn', 'char_fn', 'label_fn', 'labelled', 'feature'))


class Batch(object):
    """a batch of sentences of opaque tokens; opaque leaf features"""

    def __init__(self, chk, lengths):
        self.it = it = chk.interp()
        it.MAX_REC = 8
        it.define(SPEC)
        self.st = it.start()
        self.toks = [[sym('token_%d_%d' % (i, j)) for j in range(n)] for i, n in enumerate(lengths)]
        it.call_hook = self.hook
        self.draws = []

    def sentences(self, s):
        L = lambda xs: self.it.new_list(s, tuple(('el', x) for x in xs))
        return L([L(r) for r in self.toks])

    def hook(self, I, f, args, kw, fr, s, node):
        q, recv, pos = callee(I, f, args)
        if f.op == 'word_fn':
            return mk('feature', f.args[0], *[I.freeze(a, s) for a in args], kind='int')
        if f.op == 'char_fn':
            n = 1 + sum(args[1] is t for t in sum([r[1::2] for r in self.toks], [])) + sum(args[1] is r[-1] for r in self.toks[1:])
            return I.new_list(s, tuple(('el', mk('feature', f.args[0], args[0], args[1], const(i), kind='int')) for i in range(n)))
        if f.op == 'label_fn':
            return mk('labelled', f.args[0], *[I.freeze(a, s) for a in args])
        if q in ('spec:shape_of', 'spec:values_of'):
            return mk(q[5:], *pos, kind='int' if 'shape' in q else None)
        if f.op == 'ext' and f.args[0].startswith('random.'):
            if f.args[0] != 'random.random':
                raise Undecided(f.args[0])
            d = mk('draw', const(len(self.draws)), kind='float')
            self.draws.append(d)
            c = I.lib.compare(I, 'Lt', d, ZERO, fr, s, node)
            if c.op != 'const':
                s.assume(not_(c))
            return d
        return None

    def call(self, name, *args):
        return lambda s: self.it.call(self.it.glob('spec:' + name), [a(s) if callable(a) else a for a in args], {}, None, s, None)


WORD = {n: mk('word_fn', n) for n in ('w1', 'w2', 'w3')}
CHAR = mk('char_fn', 'c1')
SENT = mk('word_fn', 's1')
LABEL = {n: mk('label_fn', n) for n in ('l1', 'l2', 'l3')}
NAMES = {}


def leaf(b, s, kind_, name, fn, g=NONE, wrap='word', sparse=False, quiet=False):
    x = b.it.call(b.it.glob('spec:' + kind_), [const(name), fn, g, TRUE if quiet else FALSE], {}, None, s, None)
    if wrap == 'word':
        return b.it.call(b.it.glob(B + 'wrap_word_level'), [x, TRUE if sparse else FALSE], {}, None, s, None)
    if wrap == 'sentence':
        return b.it.call(b.it.glob(B + 'wrap_sentence_level'), [x], {}, None, s, None)
    return x


MIX = {
    'one word feature': [('Leaf', 'w1', WORD['w1'])],
    'two word features': [('Leaf', 'w1', WORD['w1']), ('Leaf', 'w2', WORD['w2'])],
    'a character feature': [('Leaf', 'c1', CHAR)],
    'word, character and sentence features of several types': [
        ('Leaf', 'w1', WORD['w1']), ('Empty',), ('OtherLeaf', 'w2', WORD['w2']), ('Leaf', 's1', SENT, NONE, 'sentence'),
        ('Leaf', 'c1', CHAR), ('Empty',)],
    'a sentence feature first': [('OtherLeaf', 's1', SENT, NONE, 'sentence'), ('Leaf', 'w1', WORD['w1']), ('Leaf', 'w2', WORD['w2'])],
    'empty builders only': [('Empty',), ('Empty',)],
}


def make(b, s, parts, **kw):
    out = []
    for p in parts:
        if p[0] == 'Empty':
            out.append(b.it.call(b.it.glob(B + 'EmptyFeatureExtractorBuilder'), [], {}, None, s, None))
        else:
            out.append(leaf(b, s, *p, **kw))
    return out


def merged(b, s, parts, lazy=False, **kw):
    bs = tuple(('el', x) for x in make(b, s, parts, **kw))
    x = b.it.new_iter(s, bs) if lazy else b.it.new_list(s, bs)
    m = b.it.call(b.it.glob(B + 'merge'), [x], {}, None, s, None)
    r = b.it.call_method(m, 'build', [DATA], None, s, None)
    return b.it.unpack(r, 3, None, s, None)


def expected(b, s, parts):
    d = []
    for p in parts:
        if p[0] != 'Empty':
            fn = 'per_sentence' if len(p) > 4 and p[4] == 'sentence' else 'pad_chars' if p[2] is CHAR else 'pad_words'
            d.append(('kv', const(p[1]), b.it.call(b.it.glob('spec:' + fn), [p[2], DATA, b.sentences(s)], {}, None, s, None)))
    return b.it.new_dict(s, tuple(sorted(d, key=lambda x: cval(x[1]))))


def by_name(it, s, d):
    """a dictionary with constant keys, in the order of its keys (dictionaries are equal whatever their order)"""
    x = it.freeze(d, s)
    if x.op == 'frz' and x.args[0] == 'dict' and all(e[0] == 'kv' and e[1].op == 'const' for e in x.args[1]):
        return mk('frz', 'dict', tuple(sorted(x.args[1], key=lambda e: str(cval(e[1])))), kind='dict')
    return x


def features(chk, title, lengths):
    b = Batch(chk, lengths)
    it = b.it
    parts = MIX[title]
    name = '%s, sentences of %s tokens' % (title, lengths)

    def got(s):
        fe, _, init = merged(b, s, parts, lazy=True)
        r = it.call_method(fe, 'get_features', [b.sentences(s)], None, s, None)
        return tup(by_name(it, s, r), by_name(it, s, it.call_method(init, 'shapes', [], None, s, None)),
                   by_name(it, s, it.call_method(init, 'initial_values', [], None, s, None)))

    def want(s):
        names = sorted(p[1] for p in parts if p[0] != 'Empty')
        D = lambda f: it.new_dict(s, tuple(('kv', const(n), f(n)) for n in names))
        return tup(by_name(it, s, expected(b, s, parts)),
                   by_name(it, s, D(lambda n: it.new_list(s, (('el', mk('shape_of', const(n), DATA, kind='int')),)))),
                   by_name(it, s, D(lambda n: mk('values_of', const(n), DATA))))
    chk.same('features of ' + name, B + 'merge', it, b.st, got, want)


def clash(chk, title, parts):
    b = Batch(chk, [1])

    def got(s):
        fe, _, init = merged(b, s, parts)
        return tup(b.it.freeze(b.it.call_method(fe, 'get_features', [b.sentences(s)], None, s, None), s))
    v, s, raises = b.it.run(got, b.st)
    A = B + 'CompositeFeatureExtractor.get_features'
    if v is not None:
        chk.never('%s: rejected' % title, A, State({}, s.pc), 'accepted')
    ks = {r.exc.args[0] if r.exc.op == 'exc' else show(r.exc) for r in raises}
    chk.must('%s: rejected with ValueError' % title, A, ks == {'ValueError'}, 'raises %s' % sorted(ks))


def init_clash(chk):
    b = Batch(chk, [1])
    for meth in ('shapes', 'initial_values'):
        def got(s):
            i = [b.it.call(b.it.glob('spec:LeafInitializer'), [const('x'), DATA], {}, None, s, None) for _ in range(2)]
            c = b.it.call(b.it.glob(B + 'CompositeInitializer'), [b.it.new_list(s, tuple(('el', x) for x in i))], {}, None, s, None)
            return b.it.freeze(b.it.call_method(c, meth, [], None, s, None), s)
        v, s, raises = b.it.run(got, b.st.copy())
        chk.must('two %s of one name: rejected with ValueError' % meth, B + 'CompositeInitializer.' + meth,
                 v is None and {r.exc.args[0] for r in raises} == {'ValueError'}, 'accepted')


def interpretation(chk, parts, lengths, extra):
    """labels come in arrays padded beyond the sentence"""
    b = Batch(chk, lengths)
    it = b.it
    width = max(lengths) + extra
    names = [p[1] for p in parts if p[0] != 'Empty']
    L = lambda s, xs: it.new_list(s, tuple(('el', x) for x in xs))
    P = {n: [[sym('label_%s_%d_%d' % (n, i, j)) for j in range(width)] for i in range(len(lengths))] for n in names}

    def got(s):
        _, interp, _ = merged(b, s, parts)
        v = it.new_dict(s, tuple(('kv', const(n), L(s, [L(s, r) for r in P[n]])) for n in reversed(names)))
        r = it.call_method(interp, 'interpret', [b.sentences(s), v], None, s, None)
        return it.freeze(it.new_list(s, tuple(('el', it.freeze(L(s, lit(it, s, x)), s)) for x in lit(it, s, r))), s)

    def want(s):
        out = []
        for i, row in enumerate(b.toks):
            r = []
            for j, t in enumerate(row):
                for p in parts:
                    if p[0] != 'Empty' and len(p) > 3 and p[3] is not NONE:
                        t = mk('labelled', p[3].args[0], DATA, t, P[p[1]][i][j])
                r.append(t)
            out.append(L(s, r))
        return it.freeze(L(s, out), s)
    chk.same('%d labels interpreted on sentences of %s tokens%s' % (
        sum(len(p) > 3 and p[3] is not NONE for p in parts), lengths, ', over-long labels' if extra else ''),
        B + 'IterableInterpreter.interpret', it, b.st, got, want)


def lit(it, s, x):
    els = lit_els(norm_segs(it.iter_segs(x, s, None, None)))
    if els is None:
        raise Undecided('a sequence of unknown length')
    return els


def provider(chk):
    """features and labels are built apart, from the same data set"""
    b = Batch(chk, [2, 1])
    it = b.it
    specs = [(('Leaf', 'w1', WORD['w1']), None), (None, ('Leaf', 'l1', WORD['w3'], LABEL['l1'])),
             (('Leaf', 'c1', CHAR), ('Leaf', 'l2', WORD['w2'], LABEL['l2'])), (('OtherLeaf', 's1', SENT, NONE, 'sentence'), None)]
    L = lambda s, xs: it.new_list(s, tuple(('el', x) for x in xs))
    labels = {n: [[sym('label_%s_%d_%d' % (n, i, j)) for j in range(2)] for i in range(2)] for n in ('l1', 'l2')}

    def got(s):
        ps = [it.call(it.glob('spec:LeafProvider'), [leaf(b, s, *f) if f else NONE, leaf(b, s, *l) if l else NONE], {}, None, s, None)
              for f, l in specs]
        p = it.call(chk.anchor(it, V + 'FeatureExtractorBuilderProvider'), [L(s, ps)], {}, None, s, None)
        fe, le, interp, init = it.unpack(it.call_method(p, 'build', [DATA], None, s, None), 4, None, s, None)
        v = it.new_dict(s, tuple(('kv', const(n), L(s, [L(s, r) for r in labels[n]])) for n in labels))
        r = it.call_method(interp, 'interpret', [b.sentences(s), v], None, s, None)
        return tup(by_name(it, s, it.call_method(fe, 'get_features', [b.sentences(s)], None, s, None)),
                   by_name(it, s, it.call_method(le, 'get_features', [b.sentences(s)], None, s, None)),
                   it.freeze(L(s, [it.freeze(L(s, lit(it, s, x)), s) for x in lit(it, s, r)]), s),
                   by_name(it, s, it.call_method(init, 'shapes', [], None, s, None)),
                   by_name(it, s, it.call_method(init, 'initial_values', [], None, s, None)))

    def want(s):
        names = ['c1', 'l1', 'l2', 's1', 'w1']
        D = lambda f: it.freeze(it.new_dict(s, tuple(('kv', const(n), f(n)) for n in names)), s)
        toks = [[mk('labelled', 'l2', DATA, mk('labelled', 'l1', DATA, t, labels['l1'][i][j]), labels['l2'][i][j])
                 for j, t in enumerate(r)] for i, r in enumerate(b.toks)]
        return tup(by_name(it, s, expected(b, s, [f for f, _ in specs if f])), by_name(it, s, expected(b, s, [l for _, l in specs if l])),
                   it.freeze(L(s, [L(s, r) for r in toks]), s),
                   D(lambda n: it.new_list(s, (('el', mk('shape_of', const(n), DATA, kind='int')),))), D(lambda n: mk('values_of', const(n), DATA)))
    chk.same('the provider builds features, labels, interpreter and initial values of all its parts', V + 'FeatureExtractorBuilderProvider.build',
             it, b.st, got, want)


def check(chk):
    for title in MIX:
        for lengths in ([1], [2, 1], [1, 3, 2]):
            chk.group(title, B + 'merge', features, chk, title, lengths)
    w = ('Leaf', 'w1', WORD['w1'])
    for title, parts in (('two word features of one name', [w, ('Leaf', 'w1', WORD['w2'])]),
                         ('a word and a sentence feature of one name', [w, ('OtherLeaf', 'w1', SENT, NONE, 'sentence')]),
                         ('no builder', [])):
        chk.group(title, B + 'merge', clash, chk, title, parts)
    chk.group('initial values', B + 'CompositeInitializer', init_clash, chk)
    l = [('Leaf', n, WORD['w1'], LABEL[n]) for n in LABEL]
    for parts in (l[:1], l[:2], l, [w] + l[:1] + [('Empty',)], [w, ('Leaf', 'w2', WORD['w2'])]):
        for lengths in ([1], [2, 1], [1, 3, 2]):
            for extra in (0, 2):
                chk.group('interpreter', B + 'IterableInterpreter.interpret', interpretation, chk, parts, lengths, extra)
    chk.group('provider', V + 'FeatureExtractorBuilderProvider.build', provider, chk)
