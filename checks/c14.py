"""Vocabulary features: reserved ids, in-range ids, agreement of builder, extractor and initializer."""
from .base import *
from .docmodel import *

X = 'babylondigger.features.extractors:'
RULE = ('for every training corpus, embedding file, threshold and token: the feature each vocabulary builder extracts equals '
        'the reference (index in the vocabulary shifted past the reserved ids; the out-of-vocabulary id otherwise; subword '
        'sequences between start and end ids), the announced size is the number of ids, and the initial values put each '
        'vector at the id of its word')
ASSUMPTIONS = ['external segmenters (BPEmb, Morfessor) are arbitrary functions from text to a list of strings']

SPEC = '''
from collections import Counter
from bpemb import BPEmb
import morfessor as mf

def frequent(items, threshold, first):
    kept = sorted(w for w, n in Counter(items).items() if n >= threshold)
    return {w: i for i, w in enumerate(kept, first)}

def word_feature(name, dataset, threshold, lowercase, token):
    ids = frequent((t.text.lower() if lowercase else t.text for d in dataset for t in d), threshold, 2)
    w = token.text.lower() if lowercase else token.text
    return {name: ids.get(w, 1)}, {name: [len(ids) + 2]}

def characters(name, dataset, threshold, token):
    ids = frequent((c for d in dataset for t in d for c in t.text), threshold, 4)
    return {name: [2] + [ids.get(c, 1) for c in token.text] + [3]}, {name: [len(ids) + 4]}

def morfessor(name, dataset, threshold, path, token):
    model = mf.MorfessorIO().read_any_model(path)
    ids = frequent((c for d in dataset for t in d for c in model.viterbi_segment(t.text)[0]), threshold, 4)
    return {name: [2] + [ids.get(c, 1) for c in model.viterbi_segment(token.text)[0]] + [3]}, {name: [len(ids) + 4]}

def bpe(lang, size, text):
    parts = [p for p in BPEmb(lang=lang, vs=size).encode(text)]
    if parts[0].startswith('\u2581'):
        parts = ([parts[0][1:]] if len(parts[0]) > 1 else []) + parts[1:]
    return parts

def read(path):
    vectors = {}
    size = None
    first = True
    with open(path, encoding='utf8') as f:
        for line in f:
            parts = line.split()
            if first and len(parts) == 2:
                size = int(parts[1])
            else:
                word = parts[0]
                vector = [float(x) for x in parts[1:]]
                vectors[word] = vector
                if size is None:
                    size = len(vector)
                elif size != len(vector):
                    raise ValueError()
            first = False
    return vectors, size

def embedding(name, init, vectors, size, lowercase, token):
    words = list(vectors)
    ids = {w: i + 2 for i, w in enumerate(words)}
    w = token.text.lower() if lowercase else token.text
    return {name: ids.get(w, 1)}, {init: [len(ids) + 2, size]}, \\
        {init: [(0, [0] * size)] + [(i + 2, vectors[w]) for i, w in enumerate(words)]}

def subword_embedding(name, init, vectors, size, token):
    words = list(vectors)
    ids = {w: i + 4 for i, w in enumerate(words)}
    return {name: [2] + [ids.get(c, 1) for c in token.text] + [3]}, {init: [len(ids) + 4, size]}, \\
        {init: [(0, [0] * size)] + [(i + 4, vectors[w]) for i, w in enumerate(words)]}
'''
NAME, TH, TOKEN = sym('name', 'str'), sym('threshold', 'int'), obj('DocumentToken', 'token')


def docs(name):
    ds = sym(name, 'list')
    ELEM_TYPE[ds] = lambda i: mk('obj', DOC, name, i)
    return ds


TRAIN = docs('train')


def setup(chk, cls):
    it = chk.interp()
    it.define(SPEC)
    install_docs(it)
    return it, it.start(), chk.anchor(it, X + cls)


def config(it, s, **kw):
    return it.new_dict(s, tuple(('kv', const(k), v) for k, v in kw.items()))


def run(it, c, s, args, values=False):
    """feature of TOKEN, announced shapes, initial values of what the builder makes of the training corpus"""
    b = it.call(c, args, {}, None, s, None)
    e, i, z = it.unpack(it.call_method(b, 'build', [TRAIN], None, s, None), 3, None, s, None)
    f = it.freeze(it.call_method(e, 'get_features', [TOKEN], None, s, None), s)
    out = [f, it.freeze(it.call_method(z, 'shapes', [], None, s, None), s)]
    iv = it.call_method(z, 'initial_values', [], None, s, None)
    return tup(*out), iv


def word(chk, low):
    it, st, c = setup(chk, 'TrainableEmbeddingsExtractorBuilder')
    chk.same('trainable words, lowercase=%s' % cval(low), X + 'TrainableEmbeddingsExtractorBuilder.build', it, st,
             lambda s: run(it, c, s, [NAME, TH, low])[0],
             lambda s: it.call(it.glob('spec:word_feature'), [NAME, TRAIN, TH, low, TOKEN], {}, None, s, None))


def chars(chk):
    it, st, c = setup(chk, 'TokenCharactersFeatureExtractorBuilder')
    chk.same('characters', X + 'TokenCharactersFeatureExtractorBuilder.build', it, st,
             lambda s: run(it, c, s, [NAME, config(it, s, min_frequency=TH, segmenter=const('char'))])[0],
             lambda s: it.call(it.glob('spec:characters'), [NAME, TRAIN, TH, TOKEN], {}, None, s, None))


def morf(chk):
    it, st, c = setup(chk, 'TokenCharactersFeatureExtractorBuilder')
    path = sym('path', 'str')
    chk.same('morfessor segments', X + 'TokenCharactersFeatureExtractorBuilder.build', it, st,
             lambda s: run(it, c, s, [NAME, config(it, s, min_frequency=TH, segmenter=const('morfessor'),
                                                   segmenter_config=config(it, s, path=path))])[0],
             lambda s: it.call(it.glob('spec:morfessor'), [NAME, TRAIN, TH, path, TOKEN], {}, None, s, None))


def bpe(chk):
    it, st, c = setup(chk, 'TokenBPESegmenter')
    lang, size, text = sym('lang', 'str'), sym('size', 'int'), sym('text', 'str')
    parts = sym('pieces', 'list')
    ELEM_TYPE[parts] = lambda i: mk('item', parts, i, kind='str')

    def hook(I, f, args, kw, fr, s, node):
        if f.op == 'attr' and f.args[1] == 'encode' and [I.freeze(a, s) for a in args] == [text]:
            return parts
        return None
    it.call_hook = hook
    chk.same('BPE segments', X + 'TokenBPESegmenter.segment', it, st,
             lambda s: it.call_method(it.call(c, [lang, size], {}, None, s, None), 'segment', [text], None, s, None),
             lambda s: it.call(it.glob('spec:bpe'), [lang, size, text], {}, None, s, None))


def hooked(it, vec, size):
    """the embedding file holds any mapping from words to vectors"""
    def hook(I, f, args, kw, fr, s, node):
        if callee(I, f, args)[0] == X + '_read_embeddings':
            return tup(vec, size)
        return None
    it.call_hook = hook


def values(it, s, iv, init):
    """initial values with their vectors listed"""
    v = it.lib.get_item(it, iv, init, None, s, None)
    return tup(it.freeze(it.new_list(s, it.iter_segs(v, s, None, None)), s), it.freeze(it.lib.b_len(it, [iv], {}, None, s, None), s))


def embedding(chk, cls, spec, conf, extra, name):
    it, st, c = setup(chk, cls)
    path, init = sym('path', 'str'), sym('initializer', 'str')
    vec, size = sym('vectors', 'dict'), sym('size', 'int', nonneg=True)
    hooked(it, vec, size)

    def got(s):
        a, iv = run(it, c, s, [NAME, init] + conf(it, s, path))
        return tup(a, values(it, s, iv, init))

    def want(s):
        r = it.call(it.glob('spec:' + spec), [NAME, init, vec, size] + extra(it, s) + [TOKEN], {}, None, s, None)
        a, b, iv = it.unpack(r, 3, None, s, None)
        return tup(tup(it.freeze(a, s), it.freeze(b, s)), values(it, s, iv, init))
    chk.same(name, X + cls + '.build', it, st, got, want)


def read(chk, n):
    it, st, c = setup(chk, '_read_embeddings')
    lines = [sym('line%d' % i, 'str') for i in range(n)]

    def hook(I, f, args, kw, fr, s, node):
        if f.op == 'ext' and f.args[0] == 'open':
            return I.new_list(s, tuple(('el', x) for x in lines))
        return None
    it.call_hook = hook
    path = sym('path', 'str')
    chk.same('embedding file of %d lines' % n, X + '_read_embeddings', it, st,
             lambda s: it.call(c, [path], {}, None, s, None),
             lambda s: it.call(it.glob('spec:read'), [path], {}, None, s, None))


def check(chk):
    chk.group('BPE segmenter', X + 'TokenBPESegmenter.segment', bpe, chk)
    chk.group('morfessor vocabulary', X + 'TokenCharactersFeatureExtractorBuilder.build', morf, chk)
    for low in (TRUE, FALSE):
        chk.group('word embeddings', X + 'WordEmbeddingFeatureExtractorBuilder.build', embedding, chk,
                  'WordEmbeddingFeatureExtractorBuilder', 'embedding', lambda it, s, p: [p, low], lambda it, s: [low],
                  'word embedding, lowercase=%s' % cval(low))
    chk.group('subword embeddings', X + 'SubwordEmbeddingFeatureExtractorBuilder.build', embedding, chk,
              'SubwordEmbeddingFeatureExtractorBuilder', 'subword_embedding',
              lambda it, s, p: [config(it, s, embedding_path=p, segmenter=const('char'))], lambda it, s: [], 'subword embedding')
    for n in range(4):
        chk.group('embedding file', X + '_read_embeddings', read, chk, n)
    for low in (TRUE, FALSE):
        chk.group('trainable word vocabulary', X + 'TrainableEmbeddingsExtractorBuilder.build', word, chk, low)
    chk.group('character vocabulary', X + 'TokenCharactersFeatureExtractorBuilder.build', chars, chk)
