"""A document is built exactly from matching tokens and sentences."""
import itertools
from .base import *
from .docmodel import *

TK = DM + 'Token'
RULE = ('for every text, list of tokens and list of sentences: the constructor of Document gives the sorted tokens and sentences of the '
        'reference constructor, or raises ValueError exactly when it does; from_document accepts exactly tokens of the same spans')
def item0(x, i):
    return mk('item', x, i)


SPEC = '''
from babylondigger.datamodel import Sentence, Token
def overlap(a, b):
    if a.start >= b.end or b.start >= a.end:
        return False
    if a.start == b.start and a.end == b.end:
        return a.sub_index == b.sub_index
    return True
def gap(a, b):
    """b, a part of a multiword token, does not follow its predecessor a"""
    if b.is_multiword:
        if a.is_multiword and b.start == a.start and b.end == a.end:
            return b.sub_index != a.sub_index + 1
        return b.sub_index != 0
    return False
def place(t):
    return (t.start, t.end, t.sub_index)
def build(text, tokens, sentences):
    ts = sorted(tokens, key=place)
    if any(overlap(ts[i], ts[i + 1]) for i in range(len(ts) - 1)):
        raise ValueError()
    if any(gap(ts[i], ts[i + 1]) for i in range(len(ts) - 1)):
        raise ValueError()
    if not ts:
        if sentences:
            raise ValueError()
        return text, ts, ()
    if sentences is None:
        sentences = [Sentence(0, len(ts))]
    ss = sorted(sentences, key=lambda s: (s.start, s.end))
    if not ss:
        raise ValueError()
    filled = []
    for s in ss:
        for t in ts[s.start:s.end]:
            filled.append(t.fill_heads(t, s.start))
    if ss[0].start != 0 or ss[-1].end != len(ts):
        raise ValueError()
    if any(ss[i].end != ss[i + 1].start for i in range(len(ss) - 1)):
        raise ValueError()
    return text, filled, tuple(ss)
def rebuild(d, tokens):
    ts = sorted(tokens, key=place)
    if any(not (a.start == b.start and a.end == b.end) for a, b in zip(d._tokens, ts)):
        raise ValueError()
    return build(d.text, ts, d.sentences_boundaries)
def view(d):
    return d.text, d._tokens, tuple(d.sentences_boundaries)
'''


def item0(x, i):
    return mk('item', x, i)


def fill_hook(I, f, args, kw, fr, s, node):
    """resolving heads is the subject of C05"""
    q, recv, pos = callee(I, f, args)
    if q and q.endswith('.fill_heads') and len(pos) == 2:
        return mk('obj', TK, 'with heads', *[I.freeze(a, s) for a in pos])
    return None


def setup(chk, sents):
    it = install(chk.interp())
    it.define(SPEC)
    text, toks = sym('text', 'str'), sym('tokens', 'list')
    ELEM_TYPE[toks] = lambda i: mk('obj', TK, 'token', i)
    SORTED_ELEM[toks] = lambda x, i: mk('obj', TK, 'in order', x, i)
    ELEM_TYPE[SENTS] = lambda i: mk('obj', DM + 'Sentence', 'sentence', i)
    SORTED_ELEM[SENTS] = lambda x, i: mk('obj', DM + 'Sentence', 'in order', x, i)
    it.call_hook = fill_hook
    return it, [text, toks, sents]


SENTS = sym('sentences', 'list')


def rules(chk, name, sents, *given):
    it, args = setup(chk, sents)
    c = chk.anchor(it, DM + 'Document')
    A = DM + 'Document.__init__'
    fn = lambda n: it.glob('spec:' + n)
    st = it.start(*[g(args) for g in given])
    got = lambda s: it.call(fn('view'), [it.call(c, args, {}, None, s, None)], {}, None, s, None)
    want = lambda s: it.call(fn('build'), args, {}, None, s, None)
    chk.same(name, A, it, st, got, want)


def literal(it, s, tokens):
    toks = []
    for i, (a, b, k) in enumerate(tokens):
        kw = {} if k is None else {'sub_index': const(k), 'text_replacement': const('w')}
        toks.append(it.call(it.glob(TK), [const(a), const(b)], kw, None, s, None))
    return toks


def renewed(chk, it, name, old, spans, new):
    """a document of the old tokens given new ones"""
    A = DM + 'Document.from_document'
    st = it.start()
    fn = lambda x: it.glob('spec:' + x)
    L = lambda s, xs: it.new_list(s, tuple(('el', x) for x in xs))
    c = it.glob(DM + 'Document')

    def doc(s):
        sents = [it.call(it.glob(DM + 'Sentence'), [const(a), const(b)], {}, None, s, None) for a, b in spans]
        return it.call(c, [const('xxxx'), L(s, literal(it, s, old)), L(s, sents)], {}, None, s, None)
    got = lambda s: it.call(fn('view'), [it.call_method(c, 'from_document', [doc(s), L(s, literal(it, s, new))], None, s, None)],
                            {}, None, s, None)
    want = lambda s: it.call(fn('rebuild'), [doc(s), L(s, literal(it, s, new))], {}, None, s, None)
    chk.same(name, A, it, st, got, want)


def enumerated(chk, it, name, tokens, spans):
    """the tokens (start, end, part of a multiword token or None) and sentences given"""
    c = chk.anchor(it, DM + 'Document')
    A = DM + 'Document.__init__'
    st = it.start()
    fn = lambda x: it.glob('spec:' + x)
    L = lambda s, xs: it.new_list(s, tuple(('el', x) for x in xs))

    def args(s):
        toks = literal(it, s, tokens)
        sents = NONE if spans is None else \
            L(s, [it.call(it.glob(DM + 'Sentence'), [const(a), const(b)], {}, None, s, None) for a, b in spans])
        return [const('xxxx'), L(s, toks), sents]
    got = lambda s: it.call(fn('view'), [it.call(c, args(s), {}, None, s, None)], {}, None, s, None)
    want = lambda s: it.call(fn('build'), args(s), {}, None, s, None)
    chk.same(name, A, it, st, got, want)


def spans_of_parts(chk):
    """what a token and a sentence can be made of"""
    it = install(chk.interp())
    i, j, k, t = sym('i', 'int'), sym('j', 'int'), sym('k', 'int'), sym('replacement', 'str', nullable=True)
    for cls, args, kw, bad in (
            ('Token', [i, j], {'sub_index': k, 'text_replacement': t},
             or_(not_(ge0(i)), not_(ge0(sub(sub(j, i), ONE))), and_(eq(t, NONE), not_(eq(k, ZERO))))),
            ('Token', [i, j], {}, or_(not_(ge0(i)), not_(ge0(sub(sub(j, i), ONE))))),
            ('Sentence', [i, j], {}, or_(not_(ge0(i)), not_(ge0(sub(sub(j, i), ONE)))))):
        A = DM + cls + '.__init__'
        c = chk.anchor(it, DM + cls)
        v, s, raises = it.run(lambda z: it.call(c, args, kw, None, z, None), it.start())
        name = '%s(%s)' % (cls, ', '.join(['i', 'j'] + sorted(kw)))
        if v is None:
            raise Bad('%s can never be built' % name)
        yes = s.copy()
        yes.assume(bad)
        chk.never(name + ': an empty span or a part of nothing is refused', A, yes, 'builds a bad ' + cls)
        for r in raises:
            no = r.st.copy()
            no.assume(not_(bad))
            chk.never(name + ': every proper span is accepted', A, no, 'refuses a proper ' + cls)


def from_document(chk):
    """any document of one sentence, any new tokens"""
    it, args = setup(chk, NONE)
    new = sym('new_tokens', 'list')
    ELEM_TYPE[new] = lambda i: mk('obj', TK, 'new token', i)
    SORTED_ELEM[new] = lambda x, i: mk('obj', TK, 'in order', x, i)
    c = chk.anchor(it, DM + 'Document')
    A = DM + 'Document.from_document'
    fn = lambda n: it.glob('spec:' + n)
    st = it.start(ge0(sub(len_(args[1]), ONE)))
    d, st, _ = it.run(lambda s: it.call(c, args, {}, None, s, None), st)
    got = lambda s: it.call(fn('view'), [it.call_method(c, 'from_document', [d, new], None, s, None)], {}, None, s, None)
    want = lambda s: it.call(fn('rebuild'), [d, new], {}, None, s, None)
    chk.same('a document of new tokens', A, it, st, got, want)


def check(chk):
    A = DM + 'Document.__init__'
    some = lambda a: ge0(sub(len_(a[1]), ONE))
    none = lambda a: eq(len_(a[1]), ZERO)
    sent = lambda a: ge0(sub(len_(a[2]), ONE))
    nosent = lambda a: eq(len_(a[2]), ZERO)
    for name, sents, given in (('tokens, one sentence', NONE, [some]), ('no tokens, default sentence', NONE, [none]),
                               ('tokens and sentences', SENTS, [some, sent]), ('tokens, no sentences', SENTS, [some, nosent]),
                               ('no tokens, sentences', SENTS, [none, sent]), ('no tokens, no sentences', SENTS, [none, nosent])):
        chk.group(name, A, rules, chk, name, sents, *given)
    chk.group('parts', DM + 'Token.__init__', spans_of_parts, chk)
    chk.group('from_document', DM + 'Document.from_document', from_document, chk)
    it = setup(chk, NONE)[0]
    for n in range(4):
        spans = [(i, j) for j in range(1, n + 2) for i in range(j)]
        for m in range(4 if n < 2 else 3):
            for ss in itertools.product(spans, repeat=m):
                name = '%d tokens, sentences %s' % (n, list(ss))
                chk.group(name, A, enumerated, chk, it, name, [(i, i + 1, None) for i in range(n)], ss)
    one = [(a, b, k) for a, b in ((0, 1), (1, 2), (0, 2)) for k in (None, 0, 1)]
    for ts in list(itertools.product(one, repeat=2)) + \
            [x for x in itertools.product([(0, 1, 0), (0, 1, 1), (0, 1, 2), (1, 2, 0), (1, 2, None)], repeat=3)]:
        name = 'tokens %s' % (list(ts),)
        chk.group(name, A, enumerated, chk, it, name, ts, None)
    for old, spans in (([(0, 1, None), (1, 2, None)], [(0, 2)]), ([(0, 1, None), (1, 2, None)], [(0, 1), (1, 2)]),
                       ([(0, 1, 0), (0, 1, 1), (1, 2, None)], [(0, 2), (2, 3)])):
        for m in range(4):
            for new in itertools.product([(0, 1, None), (1, 2, None), (0, 2, None), (0, 1, 0), (0, 1, 1)], repeat=m):
                name = 'tokens %s, sentences %s, new tokens %s' % (old, spans, list(new))
                chk.group(name, A, renewed, chk, it, name, old, spans, new)
