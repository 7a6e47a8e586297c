"""What is written as CoNLL-U reads back the same."""
from .base import *
from .docmodel import *
from .files import *
from .docmodel import DM
from .c08 import Docs, W, FEATURES

IO_ = 'babylondigger.evaluation.conllu_io:'
UD = 'babylondigger.evaluation.conll17_ud_eval:'
A = IO_ + 'CoNLLUWriter.write_to_str'
RULE = ('for documents of the enumerated shapes with symbolic layers, and every enumerated choice of columns of writer and reader: the '
        'documents read from what was written have, grouped by the sentence limit, the tokens of the original ones with their parts, '
        'forms and the layers of the common columns; their text is the surface forms, each followed by one space where it was '
        'followed by white space or the end')
ASSUMPTIONS = ['texts are concrete, layers are arbitrary texts other than "_" without tabs, line ends and (features) "|"',
               'documents of up to 3 sentences of up to 4 tokens']

SPEC = FILE + '''
from babylondigger.datamodel import Document, Sentence, Token, Pos

def surface(t, text):
    return text[t.start:t.end]

def spaced(t, text):
    return t.end == len(text) or text[t.end:t.end + 1].isspace()

def form(t, text):
    return surface(t, text) if t.text_replacement is None else t.text_replacement

def fresh(docs, limit, w, r, syntax):
    both = [c for c in w if c in r]
    out = []
    text, tokens, sentences = '', [], []
    for d in docs:
        for s in d.sentences:
            first, end = len(tokens), -1
            for t in s:
                if t.sub_index == 0:
                    start = len(text)
                    text = text + surface(t, d.text)
                    end = len(text)
                    text = text + (' ' if spaced(t, d.text) else '')
                pos = None
                if 'UPOS' in r or 'XPOS' in r or 'FEATS' in r:
                    pos = Pos(None, None, {})
                    if t.pos is not None:
                        pos = Pos(t.pos.upos if 'UPOS' in both else None, t.pos.xpos if 'XPOS' in both else None,
                                  t.pos.feats if 'FEATS' in both else {})
                tokens.append(Token(start, end, pos, t.lemma if 'LEMMA' in both else None,
                                    t.deprel if 'DEPREL' in both else None, t.sub_index, t.text_replacement,
                                    head_sentence_index=t.head_index if syntax and 'DEPREL' in r else None))
            sentences.append(Sentence(first, len(tokens)))
            if len(sentences) == limit:
                out.append(Document(text, tokens, sentences))
                text, tokens, sentences = '', [], []
    if len(tokens) > 0:
        out.append(Document(text, tokens, sentences))
    return out
'''
CELL = '\t\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
ALL = ('LEMMA', 'UPOS', 'XPOS', 'FEATS', 'DEPREL')
TEXT = 'ab c,_ef gh  ij\nkl.mno\u00e9 p\ud7ff'.ljust(24, 'z')


class Clean(Docs):
    """documents whose layers can be written"""

    def clean(self, name, **kw):
        v = sym(name, 'str', excl=kw.pop('excl', CELL), **kw)
        self.s.assume(not_(eq(v, const('_'))))
        return v

    def part(self, name):
        return self.clean(name, nonempty=True)

    def layers(self, pos, head):
        self.n += 1
        n, it, s = self.n, self.it, self.s
        null = n % 3 == 0
        one = lambda k, gone: NONE if gone else self.clean('%s%d' % (k, n))
        kw = dict(lemma=one('lemma', n % 4 == 3))
        if head is not None:
            kw.update(deprel=one('deprel', n % 5 == 2), head_sentence_index=const(head))
        if pos:
            names = FEATURES[pos - 1]
            feats = it.new_dict(s, tuple(('kv', const(k), sym('value%d_%s' % (n, k), 'str', excl=CELL + '|')) for k in names))
            kw['pos'] = it.call(it.glob(DM + 'Pos'), [one('upos', n % 6 == 5), one('xpos', n % 3 == 1), feats], {}, None, s, None)
        return kw


# gaps and lengths lie over TEXT: ab c , _ ef gh ij kl . mno...
def words(*ws):
    return [dict(gap=g, len=n, pos=p, head=h, parts=k) for g, n, p, h, k in ws]


SHAPES = {
    'a tree': ([[words((0, 2, 3, 1, 0), (1, 1, 0, -1, 0), (0, 1, 4, 0, 0), (0, 1, 1, 1, 0))]], True),
    'sentences': ([[words((0, 2, 2, -1, 0), (1, 1, 1, 0, 0)), words((0, 1, 0, -1, 0)), words((0, 1, 4, 1, 0), (0, 2, 1, -1, 0))]], True),
    'multiword tokens': ([[words((0, 2, 1, 2, 2), (1, 1, 3, -1, 0)), words((0, 1, 1, -1, 0), (0, 3, 0, 0, 3))]], True),
    'words without syntax': ([[words((0, 2, 3, None, 0), (1, 1, 0, None, 0), (0, 2, 4, None, 0)), words((0, 2, 1, None, 2), (1, 2, 1, None, 0))]], False),
    'documents': ([[words((0, 2, 3, -1, 0))], [words((0, 2, 2, 1, 0), (1, 1, 1, -1, 0)), words((0, 1, 0, -1, 0))], [],
                   [words((0, 2, 3, -1, 0)), words((3, 2, 0, -1, 0))]], True),
}


GAPS = (' ', '\n', '\t', '\xa0', '\u2003x', 'z ', ' \n')


def written(x, k):
    """a text in which white space of every kind lies between the words"""
    letters, out, gap = iter(TEXT + TEXT), '', k
    for s in x:
        for w in s:
            if w['gap']:
                out += (GAPS[gap % len(GAPS)] * 3)[:w['gap']]
                gap += 1
            out += ''.join(next(letters) for _ in range(w['len']))
    return out


def trip(chk, it, name, shape, syntax, limit, wcols=None, rcols=None, to_file=False):
    st = it.start()
    D = Clean(it, st)
    docs = []
    for k, x in enumerate(shape):
        n = sum(w['gap'] + w['len'] for s in x for w in s)
        docs.append(D.doc(x, const(written(x, k) + (TEXT + TEXT)[n:n + k % 2])))

    path = sym('path', 'str', nonempty=True)
    files = {}
    it.call_hook = file_hook(files)
    cols = lambda c: {} if c is None else {'columns': tup(*[it.glob(UD + x) for x in c])}

    def got(s):
        files.clear()
        w = it.call(it.glob(IO_ + 'CoNLLUWriter'), [], cols(wcols), None, s, None)
        r = it.call(it.glob(IO_ + 'CoNLLUReader'), [], dict(cols(rcols), doc_sentences_limit=const(limit)), None, s, None)
        text = it.call_method(w, 'write_to_str', docs, None, s, None)
        x = it.call_method(r, 'read_from_str', [text], None, s, None)
        return tup(*[observed(it, s, d) for d in elements(it, x, s)])

    def want(s):
        f = lambda c: tup(*[const(x) for x in (ALL if c is None else c)])
        x = it.call(it.glob('spec:fresh'), [tup(*docs), const(limit), f(wcols), f(rcols), const(syntax)], {}, None, s, None)
        return tup(*[observed(it, s, d) for d in elements(it, x, s)])
    chk.same(name, A, it, st, got, want)


def observed(I, s, d):
    toks = [layers(I, s, I.get_attr(d, 'get_token', None, s) and I.call_method(d, 'get_token', [const(i)], None, s, None))
            for i in range(cval(I.get_attr(d, 'tokens_count', None, s)))]
    sents = [tup(I.get_attr(x, 'start', None, s), I.get_attr(x, 'end', None, s))
             for x in elements(I, I.get_attr(d, 'sentences_boundaries', None, s), s)]
    return tup(I.get_attr(d, 'document_text', None, s), tup(*toks), tup(*sents))


def elements(I, x, s):
    els = lit_els(norm_segs(I.iter_segs(x, s, None, None)))
    if els is None:
        raise Undecided('a list of unknown length')
    return els


def check(chk):
    it = chk.interp()
    it.define(SPEC)
    chk.anchor(it, IO_ + 'CoNLLUWriter')
    chk.anchor(it, IO_ + 'CoNLLUReader')
    noheads = ('LEMMA', 'UPOS', 'XPOS', 'FEATS')
    for name, (shape, syntax) in SHAPES.items():
        for limit in (1, 2, 50):
            n = '%s, limit %d' % (name, limit)
            chk.group(n, A, trip, chk, it, n, shape, syntax, limit, None, None if syntax else noheads)
    shape = SHAPES['multiword tokens'][0]
    for w in (None, (), ('LEMMA', 'FEATS'), ('DEPREL', 'UPOS'), ('XPOS',)):
        for r in (noheads, (), ('UPOS', 'FEATS'), ('LEMMA', 'XPOS')):
            n = 'columns %s, %s' % (w, r)
            chk.group(n, A, trip, chk, it, n, shape, True, 50, w, r)
    for w in (None, ('DEPREL',), ('DEPREL', 'UPOS')):
        for r in (None, ('DEPREL', 'FEATS'), ('DEPREL', 'HEAD')):
            n = 'columns %s, %s' % (w, r)
            chk.group(n, A, trip, chk, it, n, shape, True, 50, w, r)
