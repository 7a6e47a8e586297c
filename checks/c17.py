"""Input sparsification: which ids are replaced by the unknown id, and with what probability."""
from .base import *
from .docmodel import *
from .c15 import Batch, leaf, merged, lit, WORD, CHAR, SENT, DATA, B, V

X = 'babylondigger.features.extractors:'
RULE = ('every id of a feature marked for sparsification is, when features are extracted with a rate r, itself under a condition '
        'of probability 1-r on a random draw of its own and the unknown id 1 otherwise, padding is 0 throughout; extracted '
        'without a rate, the features do not depend on any draw; every feature provider marks word and subword ids and '
        'nothing else, and the composition of features keeps both')
ASSUMPTIONS = ['random.random() is uniform on [0, 1)', 'batches of 1-3 sentences of 1-3 tokens of 1-3 characters']
RATE = sym('rate', 'float')


class Draws(Batch):
    """a batch whose random draws are symbols; extractor builders of the tree are replaced by opaque leaf features"""
    level = None

    def hook(self, I, f, args, kw, fr, s, node):
        q, recv, pos = callee(I, f, args)
        if q and q.startswith('babylondigger.features.extractors:') and q.endswith('.build') and self.level is not None:
            e = I.call(I.glob('spec:LeafExtractor'), [const('x'), self.level, DATA], {}, None, s, None)
            d, i = [I.call(I.glob('spec:' + n), [], {}, None, s, None) for n in ('DoNothingInterpreter', 'EmptyFeatureInitializer')]
            return tup(e, d, i)
        if f.op == 'ext' and f.args[0].split('.')[0] in ('random', 'numpy'):
            if f.args[0] != 'random.random' and not (f.args[0] == 'random.uniform' and args == [ZERO, ONE]):
                raise Undecided(f.args[0])
            d = mk('draw', const(len(self.draws)), kind='float')
            self.draws.append(d)
            return d
        return Batch.hook(self, I, f, args, kw, fr, s, node)


def worlds(c, st):
    """c under every consistent truth assignment to its conditions that do not depend on a draw"""
    def atoms(x, out):
        if x.op in ('and', 'or', 'not'):
            for a in x.args:
                atoms(a, out)
        elif not draws_in(x):
            out.append(x)
        return out
    out = [(c, (), '')]
    for a in dict.fromkeys(atoms(c, [])):
        new = []
        for t, known, when in out:
            for v, fact in ((TRUE, a), (FALSE, not_(a))):
                if next(iter(valuate.models(st.pc + tuple(known) + (fact,), range(240))), None) is not None:
                    new.append((subst_any(t, {a: v}), known + (fact,), '%s when %s' % (when, show(fact)[:100])))
        out = new
    if not out:
        raise Undecided('condition %s' % show(c)[:200])
    return [(t, w) for t, _, w in out]


def keep(c, d, r):
    """probability that c, a comparison of draw d with an affine function of r, holds: (a, b) for a + b*r"""
    if c.op == 'const':
        return (int(cval(c)), 0)
    neg_ = c.op == 'not'
    x = c.args[0] if neg_ else c
    if x.op != 'lt':
        raise Undecided('condition %s' % show(c)[:200])
    p, q = x.args[0], x.args[1]
    if p is d:      # d < q: probability q
        a = affine(q, r)
    elif q is d:    # p < d: probability 1 - p
        a = affine(p, r)
        a = (1 - a[0], -a[1])
    else:
        raise Undecided('condition %s' % show(c)[:200])
    return (1 - a[0], -a[1]) if neg_ else a


def affine(t, r):
    if t is r:
        return (0, 1)
    if t.op == 'const':
        return (cval(t), 0)
    p = lin_parts(t)
    if p is not None and set(p[1]) <= {r}:
        return (p[0], p[1].get(r, 0))
    if t.op in ('sub', 'add') and len(t.args) == 2:
        x, y = affine(t.args[0], r), affine(t.args[1], r)
        k = 1 if t.op == 'add' else -1
        return (x[0] + k * y[0], x[1] + k * y[1])
    raise Undecided('rate %s' % show(t)[:200])


def draws_in(t):
    out = set()

    def go(x):
        if x.op == 'draw':
            out.add(x)
        for c in children(x):
            go(c)
    go(t)
    return out


def conditions(t, out):
    if t.op == 'ite':
        conditions(t.args[1], out)
        conditions(t.args[2], out)
        out.append(t.args[0])
    return out


def plain(x):
    """nested tuples of the leaves of a frozen nested list"""
    if x.op == 'frz' and x.args[0] == 'list':
        els = lit_els(norm_segs(x.args[1]))
        if els is None:
            raise Undecided('a sequence of unknown length')
        return [plain(e) for e in els]
    return x


def pairs(x, y):
    """positions of two equally shaped nestings"""
    if isinstance(x, list) != isinstance(y, list) or (isinstance(x, list) and len(x) != len(y)):
        raise Bad('shape of the feature: %s, should be %s' % (describe(x), describe(y)))
    if isinstance(x, list):
        return [p for a, b in zip(x, y) for p in pairs(a, b)]
    return [(x, y)]


def describe(x):
    return [describe(a) for a in x] if isinstance(x, list) else show(x)[:60]


def sparse(chk, name, anchor, b, s, got, want):
    """got is want with every id replaced on its own draw"""
    used = set()
    n = 0
    for x, y in pairs(plain(got), plain(want)):
        if y is ZERO:
            if x is not ZERO:
                raise Bad('padding is %s' % show(x)[:200])
            continue
        z = s.copy()
        z.assume(ge0(sub(y, const(2))))     # 0 is padding, replacing 1 by 1 is no change
        x = z.simp(x)
        ds = draws_in(x)
        if not ds:
            raise Bad('%s is never replaced' % show(y)[:100]) if x is y else Bad('is %s, should be %s' % (show(x)[:200], show(y)[:100]))
        if len(ds) > 1 or ds & used:
            raise Bad('%s depends on the draws of other ids' % show(y)[:100])
        used |= ds
        if x.op != 'ite' or {x.args[1], x.args[2]} != {y, ONE}:
            raise Bad('%s becomes %s' % (show(y)[:100], show(x)[:300]))
        for c, when in worlds(x.args[0], z):
            p = keep(c, list(ds)[0], RATE)
            if x.args[1] is ONE:
                p = (1 - p[0], -p[1])
            if p != (1, -1):
                raise Bad('%s is kept with probability %s%+d*rate%s' % (show(y)[:100], p[0], p[1], when))
        n += 1
    chk.must(name, anchor, n > 0, 'no id')


def value(b, s, d, name='x'):
    d = b.it.freeze(d, s)
    if d.op != 'frz' or d.args[0] != 'dict' or not all(e[0] == 'kv' for e in d.args[1]):
        raise Undecided('features %s' % show(d)[:200])
    for e in d.args[1]:
        if e[1] is const(name):
            return b.it.freeze(e[2], s)
    raise Bad('feature %s is missing' % name)


def run(chk, b, name, anchor, th):
    v, s, raises = b.it.run(lambda z: b.it.freeze(th(z), z), b.st.copy())
    if raises and s is not None:
        s.assume(and_(*[not_(and_(*[x for x in r.st.pc if x not in b.st.pc])) for r in raises]))
    if v is None:
        raise Undecided('%s: no normal completion' % name)
    for r in raises:
        chk.never('%s: no exception' % name, anchor, State({}, r.st.pc), 'raised at %s' % r.where)
    return v, s


def extracted(b, s, fe, rate):
    return b.it.call_method(fe, 'get_features', [b.sentences(s)], None, s, None, kw={'sparse_rate': rate} if rate is not None else {})


def mixed(chk, lengths):
    """sparsified and other features, merged in several orders"""
    A = B + 'wrap_word_level'
    orders = [('w1', 'w2', 'c1', 's1'), ('w2', 's1', 'w1', 'c1'), ('c1', 'w1'), ('c1',), ('s1', 'c1')]
    kinds = {'w1': (WORD['w1'], 'word', True), 'w2': (WORD['w2'], 'word', False), 'c1': (CHAR, 'word', True), 's1': (SENT, 'sentence', False)}
    for order in orders:
        for rate in (RATE, None):
            b = Draws(chk, lengths)
            it = b.it

            def parts(z):
                return [leaf(b, z, 'OtherLeaf' if kinds[n][1] == 'sentence' else 'Leaf', n, kinds[n][0], NONE, kinds[n][1], kinds[n][2]) for n in order]

            def th(z):
                m = it.call(it.glob(B + 'merge'), [it.new_list(z, tuple(('el', x) for x in parts(z)))], {}, None, z, None)
                fe = it.unpack(it.call_method(m, 'build', [DATA], None, z, None), 3, None, z, None)[0]
                return extracted(b, z, fe, rate)
            name = 'features %s of sentences of %s tokens, %s' % ('+'.join(order), lengths, 'no rate' if rate is None else 'a rate')
            v, s = run(chk, b, name, A, th)
            for n in order:
                fn = {'c1': 'pad_chars', 's1': 'per_sentence'}.get(n, 'pad_words')
                w = it.freeze(it.call(it.glob('spec:' + fn), [kinds[n][0], DATA, b.sentences(s)], {}, None, s, None), s)
                if kinds[n][2] and rate is not None:
                    chk.group('%s: %s' % (name, n), A, sparse, chk, '%s: %s' % (name, n), A, b, s, value(b, s, v, n), w)
                else:
                    unchanged(chk, '%s: %s' % (name, n), A, b, s, value(b, s, v, n), w)


def unchanged(chk, name, anchor, b, s, got, want):
    """got is want whatever the draws"""
    def draws_ok(x):
        # a draw is less than 0 with probability 0, less than 1 always
        m = {}
        for d in draws_in(x):
            for z, o in ((ZERO, ONE), (const(0.0), const(1.0))):
                m[mk('lt', d, z, kind='bool')] = m[mk('lt', o, d, kind='bool')] = FALSE
                m[mk('lt', z, d, kind='bool')] = m[mk('lt', d, o, kind='bool')] = TRUE
        return subst_any(x, m) if m else x
    for x, y in pairs(plain(got), plain(want)):
        x = draws_ok(s.simp(x))
        if x is not y:
            return chk.must(name, anchor, False, 'is %s, should be %s' % (show(x)[:300], show(y)[:100]))
    return chk.must(name, anchor, True)


PROVIDERS = [
    ('WordEmbeddingExtractorProvider', ['feature', 'init', {'path': sym('path', 'str'), 'lowercase': sym('low', 'bool')}], WORD['w1'], True),
    ('TrainableWordEmbeddingExtractorProvider', ['feature', {'min_frequency': sym('th', 'int'), 'lowercase': sym('low', 'bool')}], WORD['w1'], True),
    ('SubwordEmbeddingExtractorProvider', ['feature', 'init', {'embedding_path': sym('path', 'str'), 'segmenter': 'char'}], CHAR, True),
    ('SubwordsExtractorProvider', ['feature', {'min_frequency': sym('th', 'int'), 'segmenter': 'char'}], CHAR, True),
    ('SentenceLengthExtractorProvider', ['feature'], SENT, False),
    ('LemmaDictExtractorProvider', ['label'], WORD['w1'], False),
    ('PosDictExtractorProvider', ['label', 'pos_joint'], CHAR, False),
    ('LemmaTransformationExtractorProvider', ['feature', 'label', {'rules_threshold': sym('th', 'int')}], CHAR, False),
    ('LemmaCharExtractorProvider', ['label', {'min_frequency': sym('th', 'int'), 'max_word_length': sym('mx', 'int'), 'segmenter': 'char'}], CHAR, False),
]


def provider(chk, cls, args, fn, marked):
    """the features (labels) of one provider, extracted with a rate if it takes one"""
    for meth in ('feature_extractor_builder', 'labels_extractor_builder'):
        for rate in (RATE, None):
            if rate is not None and meth == 'labels_extractor_builder':
                continue
            b = Draws(chk, [2, 1])
            b.level = fn
            it = b.it
            c = chk.anchor(it, V + cls)
            A = V + cls + '.' + meth

            def arg(z, a):
                if isinstance(a, dict):
                    return it.new_dict(z, tuple(('kv', const(k), arg(z, v)) for k, v in a.items()))
                return a if isinstance(a, T) else const(a)

            def th(z):
                p = it.call(c, [arg(z, a) for a in args], {}, None, z, None)
                eb = it.call_method(p, meth, [], None, z, None)
                fe = it.unpack(it.call_method(eb, 'build', [DATA], None, z, None), 3, None, z, None)[0]
                return extracted(b, z, fe, rate)
            name = '%s.%s, %s' % (cls, meth, 'no rate' if rate is None else 'a rate')
            v, s = run(chk, b, name, A, th)
            if v.op == 'frz' and v.args[0] == 'dict' and not v.args[1]:
                chk.must(name + ': no feature', A, True)
                continue
            fn_ = 'per_sentence' if fn is SENT else 'pad_chars' if fn is CHAR else 'pad_words'
            w = it.freeze(it.call(it.glob('spec:' + fn_), [fn, DATA, b.sentences(s)], {}, None, s, None), s)
            g = value(b, s, v)
            if marked and rate is not None:
                sparse(chk, name, A, b, s, g, w)
            else:
                unchanged(chk, name, A, b, s, g, w)


def check(chk):
    for lengths in ([1], [2, 1], [1, 3, 2]):
        chk.group('features of sentences of %s tokens' % lengths, B + 'wrap_word_level', mixed, chk, lengths)
    for cls, args, fn, marked in PROVIDERS:
        chk.group(cls, V + cls, provider, chk, cls, args, fn, marked)
