"""Labels: encoding and decoding are inverse, ids are assigned deterministically."""
from .base import *
from .docmodel import *
from .c14 import docs, TRAIN, TOKEN, config

X = 'babylondigger.features.extractors:'
RULE = ('for every training corpus and token: the label ids, the announced sizes and the decoded annotation equal the '
        'reference (the most frequent value gets id 0, the others follow in sorted order; unseen values are encoded as 0; '
        'decoding picks the value by id and rebuilds the annotation)')
ASSUMPTIONS = ['every token of the training corpus has a POS']

ATTR_KINDS['pos'] = (None, False)        # training tokens have a POS
ATTR_KINDS['feats'] = ('dict', False)     # which holds its features in a dict

SPEC = '''
from collections import Counter
from babylondigger.datamodel import Pos, DocumentToken

def numbering(counts, threshold=0):
    first = counts.most_common(1)[0][0]
    rest = (x for x, n in counts.items() if threshold <= 0 or n > threshold)
    return [first] + sorted((x for x in rest if x != first), key=lambda x: (x is not None, x))

def lemma_dict(name, dataset, token, other, label):
    values = numbering(Counter(t.lemma for d in dataset for t in d))
    ids = {v: i for i, v in enumerate(values)}
    return {name: [ids.get(token.lemma, 0)]}, {name: {"LEMMA": len(values)}}, \\
        DocumentToken.with_morphology(other, pos=other.pos, lemma=values[label])

def seen(dataset):
    return len(Counter(t.pos for d in dataset for t in d))

def pos_joint(name, dataset, token, other, label):
    values = numbering(Counter(t.pos for d in dataset for t in d))
    ids = {v: i for i, v in enumerate(values)}
    return {name: [ids.get(token.pos, 0)]}, {name: {"POS": len(values)}}, \\
        DocumentToken.with_morphology(other, pos=values[label], lemma=other.lemma)

def parts(feats):
    return tuple(sorted(feats.items()))

def values_of(dataset, part):
    return numbering(Counter(part(t.pos) for d in dataset for t in d))

def pos_uxf(name, dataset, token, other, u, x, f):
    us = values_of(dataset, lambda p: p.upos)
    xs = values_of(dataset, lambda p: p.xpos)
    fs = values_of(dataset, lambda p: parts(p.feats))
    p = token.pos
    ids = [{v: i for i, v in enumerate(us)}.get(p.upos, 0), {v: i for i, v in enumerate(xs)}.get(p.xpos, 0),
           {v: i for i, v in enumerate(fs)}.get(parts(p.feats), 0)]
    return {name: ids}, {name: {"UPOS": len(us), "XPOS": len(xs), "FEATS": len(fs)}}, \
        DocumentToken.with_morphology(other, pos=Pos(us[u], xs[x], dict(fs[f])), lemma=other.lemma)

def pos_xf(name, dataset, token, other, u, xf):
    us = values_of(dataset, lambda p: p.upos)
    xfs = values_of(dataset, lambda p: (p.xpos, parts(p.feats)))
    p = token.pos
    ids = [{v: i for i, v in enumerate(us)}.get(p.upos, 0),
           {v: i for i, v in enumerate(xfs)}.get((p.xpos, parts(p.feats)), 0)]
    return {name: ids}, {name: {"UPOS": len(us), "XPOS+FEATS": len(xfs)}}, \
        DocumentToken.with_morphology(other, pos=Pos(us[u], xfs[xf][0], dict(xfs[xf][1])), lemma=other.lemma)

def width(counts):
    return len(sorted({f for p in counts for f in p.feats}))

def granular_split(counts, pos):
    names = sorted({f for p in counts for f in p.feats})
    out = {"UPOS": pos.upos, "XPOS": pos.xpos}
    for n in names:
        out[n] = pos.feats.get(n)
    return out

def granular_combine(counts, values):
    names = sorted({f for p in counts for f in p.feats})
    feats = {}
    for i in range(2, len(values)):
        if values[i] is not None:
            feats[names[i - 2]] = values[i]
    return Pos(values[0], values[1], feats)

def suffix(name, dataset, threshold, token, other, label, rule, applicable, apply):
    rules = numbering(Counter(rule(t.text.lower(), t.lemma.lower()) for d in dataset for t in d), threshold)
    ids = {v: i for i, v in enumerate(rules)}
    text = other.text.lower()
    r = rules[label]
    lemma = apply(r, text) if applicable(r, text) else text
    return {name: [ids.get(rule(token.text.lower(), token.lemma.lower()), 0)]}, {name: {"LEMMA": len(rules)}}, \
        DocumentToken.with_morphology(other, pos=other.pos, lemma=lemma)

def lemma_chars(name, dataset, threshold, width, token, other, labels):
    kept = sorted(c for c, n in Counter(c for d in dataset for t in d for c in t.lemma).items() if n >= threshold)
    ids = {c: i for i, c in enumerate(kept, 4)}
    chars = {i: c for c, i in ids.items()}
    line = [2] + [ids.get(c, 1) for c in token.lemma] + [3]
    lemma = ''
    for x in labels:
        if x == 3:
            break
        if x != 2 and x != 1 and x != 0:
            lemma += chars[x]
    return {name: line[:width] if len(line) > width else line + [0] * (width - len(line))}, {name: [len(ids) + 4]}, \
        DocumentToken.with_morphology(other, pos=other.pos, lemma=lemma)
'''
NAME, OTHER, LABEL = sym('name', 'str'), obj('DocumentToken', 'other'), sym('label', 'int', nonneg=True)


def setup(chk, cls):
    it = chk.interp()
    it.define(SPEC)
    install_docs(it)
    return it, it.start(), chk.anchor(it, X + cls)


def run(it, c, s, args, labels):
    b = it.call(c, args, {}, None, s, None)
    e, i, z = it.unpack(it.call_method(b, 'build', [TRAIN], None, s, None), 3, None, s, None)
    f = it.freeze(it.call_method(e, 'get_features', [TOKEN], None, s, None), s)
    sh = it.freeze(it.call_method(z, 'shapes', [], None, s, None), s)
    v = it.new_dict(s, (('kv', NAME, it.new_list(s, tuple(('el', x) for x in labels))),))
    t = it.call_method(i, 'interpret', [OTHER, v], None, s, None)
    return tup(f, sh, layers(it, s, t))


def want(it, s, spec, args):
    a, b, t = it.unpack(it.call(it.glob('spec:' + spec), args, {}, None, s, None), 3, None, s, None)
    return tup(it.freeze(a, s), it.freeze(b, s), layers(it, s, t))


def some_token(it, st):
    st.assume(ge0(sub(it.call(it.glob('spec:seen'), [TRAIN], {}, None, st, None), ONE)))


def lemma_dict(chk):
    it, st, c = setup(chk, 'LemmaDictFeatureExtractorBuilder')
    chk.same('lemma dictionary', X + 'LemmaDictFeatureExtractorBuilder.build', it, st,
             lambda s: run(it, c, s, [NAME], [LABEL]),
             lambda s: want(it, s, 'lemma_dict', [NAME, TRAIN, TOKEN, OTHER, LABEL]))


def pos_joint(chk):
    it, st, c = setup(chk, 'PosDictFeatureExtractorBuilder')
    some_token(it, st)
    chk.same('joint POS labels', X + 'PosDictFeatureExtractorBuilder.build', it, st,
             lambda s: run(it, c, s, [NAME, const('pos_joint')], [LABEL]),
             lambda s: want(it, s, 'pos_joint', [NAME, TRAIN, TOKEN, OTHER, LABEL]), strs=('a', 'b'), ints=(0, 1, 2), seeds=range(1500))


def pos_parts(chk, split, spec, n):
    it, st, c = setup(chk, 'PosDictFeatureExtractorBuilder')
    some_token(it, st)
    labels = [sym('label%d' % i, 'int', nonneg=True) for i in range(n)]
    chk.same('POS labels, ' + split, X + 'PosDictFeatureExtractorBuilder.build', it, st,
             lambda s: run(it, c, s, [NAME, const(split)], labels),
             lambda s: want(it, s, spec, [NAME, TRAIN, TOKEN, OTHER] + labels), strs=('a', 'b'), ints=(0, 1, 2), seeds=range(1500))


def rule_hook(I, f, args, kw, fr, s, node):
    """suffix rules are opaque values; what they do is the business of the rule itself"""
    q = callee(I, f, args)[0] if f.op != 'attr' else None
    name = f.args[1] if f.op == 'attr' else (q or '').rpartition(':')[2].rpartition('.')[2]
    if f.op == 'ext' and f.args[0].startswith('rule.'):
        return I.opaque_call(f, args, kw, fr, s, node, pure=True)
    if q and q.startswith(RULE_CLASS) and name == 'get_rule':
        return I.opaque_call(mk('ext', 'rule.get'), args[-2:], kw, fr, s, node, pure=True)
    if f.op == 'attr' and name in ('is_applicable', 'transform'):
        return I.opaque_call(mk('ext', 'rule.' + name), [f.args[0]] + list(args), kw, fr, s, node, pure=True)
    return None


RULE_CLASS = 'babylondigger.lemmas.transformation_rules:LemmaSuffixTransformation'


def suffix(chk, zero, again):
    it, st, c = setup(chk, 'LemmaSuffixTransformationFeatureExtractorBuilder')
    cache = chk.anchor(it, X + 'CachedSuffixRulesBuilder')
    it.call_hook = rule_hook
    th = ZERO if zero else sym('threshold', 'int', nonneg=True)
    if not zero:
        st.assume(ge0(sub(th, ONE)))
    other = docs('earlier')
    st.assume(not_(eq(other, TRAIN)))
    fs = [mk('ext', 'rule.' + x) for x in ('get', 'is_applicable', 'transform')]

    def got(s):
        rules = it.call(cache, [th], {}, None, s, None)
        if again:
            it.call_method(it.call(c, [NAME, rules], {}, None, s, None), 'build', [other], None, s, None)
        return run(it, c, s, [NAME, rules], [LABEL])
    chk.same('suffix rule labels, threshold %s%s' % ('zero' if zero else 'positive', ', second corpus' if again else ''),
             X + 'LemmaSuffixTransformationFeatureExtractorBuilder.build', it, st, got,
             lambda s: want(it, s, 'suffix', [NAME, TRAIN, th, TOKEN, OTHER, LABEL] + fs))


def lemma_chars(chk, n):
    it, st, c = setup(chk, 'LemmaCharFeatureExtractorBuilder')
    th, width = sym('threshold', 'int'), sym('width', 'int', nonneg=True)
    labels = [sym('label%d' % i, 'int', nonneg=True) for i in range(n)]
    chk.same('lemma characters, %d decoded' % n, X + 'LemmaCharFeatureExtractorBuilder.build', it, st,
             lambda s: run(it, c, s, [NAME, config(it, s, min_frequency=th, max_word_length=width,
                                                   segmenter=const('char'))], labels),
             lambda s: want(it, s, 'lemma_chars', [NAME, TRAIN, th, width, TOKEN, OTHER,
                                                   it.new_list(s, tuple(('el', x) for x in labels))]))


def granular(chk, n):
    it, st, _ = setup(chk, 'PosDictFeatureExtractorBuilder')
    c = it.glob(X + 'PosGranularSplitter')
    if c is None:
        raise Undecided('the granular splitter is gone')
    counts = sym('counts', 'dict')
    ELEM_TYPE[lib.keys_(counts)] = lambda i: mk('obj', DM + 'Pos', 'tag', i)
    pos = obj('Pos', 'pos')
    values = [sym('value%d' % i, 'str', nullable=True) for i in range(n)]

    def split(s):
        d = it.call_method(it.call(c, [counts], {}, None, s, None), 'split', [pos], None, s, None)
        return it.new_list(s, it.iter_segs(it.call_method(d, 'items', [], None, s, None), s, None, None))

    def split_want(s):
        d = it.call(it.glob('spec:granular_split'), [counts, pos], {}, None, s, None)
        return it.new_list(s, it.iter_segs(it.call_method(d, 'items', [], None, s, None), s, None, None))
    if not n:
        chk.same('granular POS parts', X + 'PosGranularSplitter.split', it, st, split, split_want)
        return

    def seen(s, v):
        return tup(*[it.freeze(it.get_attr(v, a, None, s, None), s) for a in ('upos', 'xpos', 'feats')])
    names = sub(it.call(it.glob('spec:width'), [counts], {}, None, st, None), const(n - 2))
    st.assume(ge0(names))
    chk.same('granular POS value of %d parts' % n, X + 'PosGranularSplitter.combine', it, st,
             lambda s: seen(s, it.call_method(it.call(c, [counts], {}, None, s, None), 'combine', [tup(*values)], None, s, None)),
             lambda s: seen(s, it.call(it.glob('spec:granular_combine'), [counts, tup(*values)], {}, None, s, None)))


def check(chk):
    for n in (0, 2, 3, 4):
        chk.group('granular POS', X + 'PosGranularSplitter', granular, chk, n)
    for split, spec, n in (('pos_UXF', 'pos_uxf', 3), ('pos_XF', 'pos_xf', 2)):
        chk.group('POS labels, ' + split, X + 'PosDictFeatureExtractorBuilder.build', pos_parts, chk, split, spec, n)
    for zero, again in ((True, False), (False, False), (True, True), (False, True)):
        chk.group('suffix rule labels', X + 'LemmaSuffixTransformationFeatureExtractorBuilder.build', suffix, chk, zero, again)
    for n in range(3):
        chk.group('lemma characters', X + 'LemmaCharFeatureExtractorBuilder.build', lemma_chars, chk, n)
    chk.group('lemma dictionary', X + 'LemmaDictFeatureExtractorBuilder.build', lemma_dict, chk)
    chk.group('joint POS', X + 'PosDictFeatureExtractorBuilder.build', pos_joint, chk)
