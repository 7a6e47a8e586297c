"""Heads are available in both views; tokens and sentences know their neighbours."""
import itertools
from .base import *
from .docmodel import *
from .docmodel import DM

TK = DM + 'Token'
RULE = ('for every token and offset fill_heads gives both views of the head or refuses; for every index i of a document of any '
        'number of tokens get_token(i) is token i, its neighbours are tokens i-1 and i+1; the same for the sentences of every '
        'document of up to 4 tokens and 3 sentences, heads being arbitrary')
ASSUMPTIONS = ['sentences: documents of up to 4 tokens are unrolled']
SPEC = '''
def both(hd, hs, start):
    """(document view, sentence view)"""
    if hd is None and hs is None:
        return None, None
    if hd == -1 or hs == -1:
        return -1, -1
    if hs is None:
        hs = hd - start
    elif hd is None:
        hd = hs + start
    elif hd != hs + start:
        raise ValueError()
    if hs < 0:
        raise ValueError()
    return hd, hs
def fill(t, start):
    r = t.fill_heads(t, start)
    return r._head_document_index, r._head_sentence_index
def at(i, n):
    if i >= n or i < -n:
        raise IndexError()
    return i + n if i < 0 else i
def flat(t):
    if t is None:
        return None
    return (t.start, t.end, t.sub_index, t.text_replacement, t.pos, t.lemma, t.deprel)
def got_token(d, i):
    t = d.get_token(i)
    return flat(t), flat(d[i]), t.is_first, t.is_last, flat(t.next), flat(t.previous), t.head_index, t.has_head, t.is_root
def want_token(ts, i, heads):
    n = len(ts)
    i = at(i, n)
    f = flat(ts[i])
    h = heads(ts[i])
    return (f, f, i == 0, i == n - 1, flat(ts[i + 1]) if i + 1 < n else None, flat(ts[i - 1]) if i > 0 else None,
            h, ts[i].has_head, ts[i].is_root)
def place(t):
    return None if t is None else (t.start, t.end)
def row(t):
    return (place(t), t.text, t.head_index, place(t.head), t.has_head, t.is_root, t.is_first, t.is_last,
            place(t.next), place(t.previous))
def span(s):
    return None if s is None else [place(t) for t in s.tokens]
def got_document(d):
    ks = list(range(-d.sentences_count, d.sentences_count))
    return (d.text, d.document_text, d.tokens_count, [row(t) for t in d.tokens], [row(t) for t in d],
            d.sentences_count, [(b.start, b.end, b.len) for b in d.sentences_boundaries],
            [span(s) for s in d.sentences],
            [sentence(d.get_sentence(k)) for k in ks])
def sentence(s):
    return (s.text, s.document_text, s.tokens_count, [row(t) for t in s.tokens], [row(s[j]) for j in range(s.tokens_count)],
            s.is_first, s.is_last, span(s.next), span(s.previous))
def rows(text, places, heads):
    n = len(places)
    out = []
    for i in range(n):
        h = heads[i]
        out.append((places[i], text[places[i][0]:places[i][1]], h, places[h] if h is not None and h != -1 else None, h is not None,
                    h == -1, i == 0, i == n - 1, places[i + 1] if i + 1 < n else None, places[i - 1] if i > 0 else None))
    return out
def want_document(text, places, bounds, heads):
    """heads: sentence views"""
    dh = []
    for a, b in bounds:
        for h in heads[a:b]:
            dh.append(h if h is None or h == -1 else h + a)
    m = len(bounds)
    sents = []
    for k in range(m):
        a, b = bounds[k]
        r = rows(text, places[a:b], heads[a:b])
        sents.append((text[places[a][0]:places[b - 1][1]], text, b - a, r, r, k == 0, k == m - 1,
                      places[b:bounds[k + 1][1]] if k + 1 < m else None, places[bounds[k - 1][0]:a] if k > 0 else None))
    r = rows(text, places, dh)
    return (text, text, len(places), r, r, m, [(a, b, b - a) for a, b in bounds], [places[a:b] for a, b in bounds], sents + sents)
def document_head(t):
    return t._head_document_index
def sentence_head(t):
    return t._head_sentence_index
'''


def filling(chk):
    it = install(chk.interp())
    it.define(SPEC)
    A = TK + '.fill_heads'
    chk.anchor(it, A)
    n = sym('sentence_start', 'int', nonneg=True)
    fn = lambda x: it.glob('spec:' + x)
    hd, hs = sym('document_head', 'int'), sym('sentence_head', 'int')
    for x, y in itertools.product((NONE, const(-1), hd), (NONE, const(-1), hs)):
        st = it.start(*[not_(eq(z, const(-1))) for z in (hd, hs)])
        new = lambda s: it.call(it.glob(TK), [ZERO, ONE], {'head_document_index': x, 'head_sentence_index': y}, None, s, None)
        got = lambda s: it.call(fn('fill'), [new(s), n], {}, None, s, None)
        want = lambda s: it.call(fn('both'), [x, y, n], {}, None, s, None)
        chk.same('both views of head %s of the document, %s of the sentence' % (show(x), show(y)), A, it, st, got, want)


def tokens(chk, name, given):
    it = install(chk.interp())
    it.define(SPEC)
    text, toks, i = sym('text', 'str'), sym('tokens', 'list'), sym('i', 'int')
    ELEM_TYPE[toks] = lambda i: mk('obj', TK, 'token', i)
    SORTED_ELEM[toks] = lambda x, i: mk('obj', TK, 'in order', x, i)

    def hook(I, f, args, kw, fr, s, node):
        q, recv, pos = callee(I, f, args)
        if q and q.endswith('.fill_heads') and len(pos) == 2:
            return mk('obj', TK, 'with heads', *[I.freeze(a, s) for a in pos])
        return None
    it.call_hook = hook
    c = chk.anchor(it, DM + 'Document')
    A = DM + 'Document.get_token'
    fn = lambda n: it.glob('spec:' + n)
    st = it.start(ge0(sub(len_(toks), ONE)), *given(i, len_(toks)))
    d, st, _ = it.run(lambda s: it.call(c, [text, toks], {}, None, s, None), st)
    if d is None:
        raise Bad('no document can be built')
    ts = it.run(lambda s: it.get_attr(d, '_tokens', None, s), st)[0]
    got = lambda s: it.call(fn('got_token'), [d, i], {}, None, s, None)
    want = lambda s: it.call(fn('want_token'), [ts, i, fn('document_head')], {}, None, s, None)
    chk.same('token i of a document, ' + name, A, it, st, got, want)


def documents(chk, it, bounds, modes):
    n = bounds[-1][1]
    A = DM + 'Document.get_sentence'
    st = it.start()
    L = lambda s, xs: it.new_list(s, tuple(('el', x) for x in xs))
    places = [(3 * i, 3 * i + 2) for i in range(n)]
    text = const(''.join(' %s.' % chr(97 + i) for i in range(n)))
    heads = []
    for a, b in bounds:
        for i in range(a, b):
            m = modes[i % len(modes)]
            if m in 'dsb':
                h = sym('head%d' % i, 'int', nonneg=True)
                st.assume(ge0(sub(const(b - a - 1), h)))
                heads.append((m, h, a))
            else:
                heads.append((m, NONE if m == 'n' else const(-1), 0))

    def doc(s):
        ts = []
        for (x, y), (m, h, a) in zip(places, heads):
            kw = {'head_document_index': add(h, const(a))} if m == 'd' else {'head_sentence_index': h} if m in 'sr' else \
                {'head_document_index': add(h, const(a)), 'head_sentence_index': h} if m == 'b' else {}
            ts.append(it.call(it.glob(TK), [const(x), const(y)], kw, None, s, None))
        ss = [it.call(it.glob(DM + 'Sentence'), [const(a), const(b)], {}, None, s, None) for a, b in bounds]
        return it.call(it.glob(DM + 'Document'), [text, L(s, ts), L(s, ss)], {}, None, s, None)
    fn = lambda x: it.glob('spec:' + x)
    pairs = lambda s, ps: L(s, [tup(const(x), const(y)) for x, y in ps])
    got = lambda s: it.call(fn('got_document'), [doc(s)], {}, None, s, None)
    want = lambda s: it.call(fn('want_document'), [text, pairs(s, places), pairs(s, bounds), L(s, [h for _, h, _ in heads])], {}, None, s, None)
    chk.same('document of sentences %s, heads given as %s' % (bounds, modes), A, it, st, got, want)


def check(chk):
    chk.group('fill_heads', TK + '.fill_heads', filling, chk)
    for name, given in (('0 <= i', lambda i, n: [ge0(i)]), ('-n <= i < 0', lambda i, n: [ge0(add(i, n)), ge0(sub(const(-1), i))]),
                        ('i < -n', lambda i, n: [ge0(sub(sub(const(-1), i), n))])):
        chk.group('tokens', DM + 'Document.get_token', tokens, chk, name, given)
    it = install(chk.interp())
    it.define(SPEC)
    for c in ('get_sentence', 'sentences', 'tokens', 'sentences_boundaries'):
        chk.anchor(it, DM + 'Document.' + c)
    for n in range(1, 5):
        for cut in itertools.product((0, 1), repeat=n - 1):
            ends = [i + 1 for i in range(n - 1) if cut[i]] + [n]
            if len(ends) > 3:
                continue
            bounds = list(zip([0] + ends, ends))
            for modes in ('dn', 'sr', 'bnd', 'rds'):
                chk.group('documents', DM + 'Document.get_sentence', documents, chk, it, bounds, modes)
