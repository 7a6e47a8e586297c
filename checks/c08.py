"""Writing CoNLL-U."""
from .base import *
from .docmodel import *
from .files import *
from .docmodel import DM
from engine import valuate

IO_ = 'babylondigger.evaluation.conllu_io:'
UD = 'babylondigger.evaluation.conll17_ud_eval:'
RULE = ('for documents of the enumerated shapes with symbolic texts and layers, and every enumerated choice of columns, what the '
        'writer writes equals the text of a reference writer: one row of ten columns per token, numbered from 1 in every sentence, '
        'a range row before the words of a multiword token, an empty line behind every sentence; files are UTF-8 and closed')
ASSUMPTIONS = ['documents of up to 3 sentences of up to 4 tokens; features with concrete names and arbitrary values']

SPEC = FILE + '''
def cell(x):
    return '_' if x is None else x

def surface(t, text):
    return text[t.start:t.end]

def spaced(t, text):
    return t.end == len(text) or text[t.end:t.end + 1].isspace()

def form(t, text):
    return surface(t, text) if t.text_replacement is None else t.text_replacement

def row(t, text, n, columns, space, fake):
    upos = xpos = feats = '_'
    if t.pos is not None:
        upos = cell(t.pos.upos) if 'UPOS' in columns else '_'
        xpos = cell(t.pos.xpos) if 'XPOS' in columns else '_'
        if 'FEATS' in columns and len(t.pos.feats) > 0:
            feats = '|'.join([k + '=' + t.pos.feats[k] for k in sorted(t.pos.feats)])
    head, deprel = '_', '_'
    h = t.head_index if 'HEAD' in columns or 'DEPREL' in columns else None
    if h is not None:
        head = str(h + 1)
        deprel = cell(t.deprel) if 'DEPREL' in columns else '_'
    elif fake:
        head = str(n - 1)
    return [str(n), form(t, text), cell(t.lemma) if 'LEMMA' in columns else '_', upos, xpos, feats, head, deprel, '_',
            'SpaceAfter=No' if space and not spaced(t, text) else '_']

def line(cells):
    return '\\t'.join(cells) + '\\n'

def reference(docs, columns):
    out = ''
    for d in docs:
        for s in d.sentences:
            tokens = list(s)
            for i in range(len(tokens)):
                t = tokens[i]
                if t.is_multiword:
                    n = len([x for x in tokens if x.start == t.start])
                    if t.sub_index == 0:
                        out += line([str(i + 1) + '-' + str(i + n), surface(t, d.text)] + ['_'] * 7 + ['_' if spaced(t, d.text) else 'SpaceAfter=No'])
                out += line(row(t, d.text, i + 1, columns, not t.is_multiword, True))
            out += '\\n'
    return out

def to_file(name, docs, columns):
    closed(name, reference(docs, columns))
'''
ALL = ('LEMMA', 'UPOS', 'XPOS', 'FEATS', 'DEPREL')
FEATURES = ((), ('Case',), ('Number', 'Case'), ('Tense', 'Gender', 'Number'))


TEXTS = [(x * 30)[:n] for x in ('ab ', 'a\n', 'b c\td', 'abc\u2003', 'a', 'xy') for n in (30, 31, 32, 33)]


class Docs(object):
    """documents of the given shape: sentences as lists of words; (k, ...) starts a multiword token of k parts"""

    def __init__(self, it, s):
        self.it, self.s, self.n = it, s, 0

    def L(self, xs):
        return self.it.new_list(self.s, tuple(('el', x) for x in xs))

    def part(self, name):
        return sym(name, 'str', nonempty=True)

    def layers(self, pos, head):
        self.n += 1
        n, it, s = self.n, self.it, self.s
        kw = dict(lemma=sym('lemma%d' % n, 'str', nullable=True), deprel=sym('deprel%d' % n, 'str', nullable=True))
        if pos:
            names = FEATURES[pos - 1]
            feats = it.new_dict(s, tuple(('kv', const(k), sym('value%d_%s' % (n, k), 'str')) for k in names))
            kw['pos'] = it.call(it.glob(DM + 'Pos'), [sym('upos%d' % n, 'str', nullable=True), sym('xpos%d' % n, 'str', nullable=True),
                                                      feats], {}, None, s, None)
        if head is not None:
            kw['head_sentence_index'] = head if isinstance(head, T) else const(head)
        return kw

    def doc(self, sentences, text=None):
        it, s = self.it, self.s
        toks, sents, at = [], [], 0
        for sent in sentences:
            first = len(toks)
            for w in sent:
                gap = w.get('gap', 0)
                a, b = at + gap, at + gap + w.get('len', 2)
                parts = w.get('parts', 0)
                for k in range(max(parts, 1)):
                    kw = self.layers((w['pos'] + k) % 5 if w['pos'] else 0, w.get('head'))
                    if parts:
                        kw.update(sub_index=const(k), text_replacement=self.part('part%d' % self.n))
                    toks.append(it.call(it.glob(DM + 'Token'), [const(a), const(b)], kw, None, s, None))
                at = b
            sents.append(it.call(it.glob(DM + 'Sentence'), [const(first), const(len(toks))], {}, None, s, None))
        t = text if text is not None else sym('text', 'str')
        if t.op == 'sym':
            s.assume(ge0(sub(len_(t), const(at))))
            valuate.POOL[t] = TEXTS
        return it.call(it.glob(DM + 'Document'), [t, self.L(toks), self.L(sents)], {}, None, s, None)


def W(gap=1, pos=1, head=None, parts=0, len=2):
    return dict(gap=gap, pos=pos, head=head, parts=parts, len=len)


SHAPES = {
    'no document': [],
    'an empty document': [[]],
    'a word': [[[W(0)]]],
    'a word without morphology': [[[W(0, 0)]]],
    'words with features': [[[W(0, 2), W(1, 3), W(0, 4), W(1, 1)]]],
    'a tree': [[[W(0, 3, 1), W(1, 0, -1), W(0, 1, 0)]]],
    'symbolic heads': [[[W(0, 0, sym('h1', 'int', nonneg=True)), W(1, 0, -1), W(0, 1, None)]]],
    'sentences': [[[W(0, 1, -1), W(1, 2, 0)], [W(1, 1)], [W(0, 0, 1), W(0, 0, -1), W(2, 1, 0)]]],
    'documents': [[[W(0)], [W(0, 0, -1)]], [], [[W(3, 2), W()]]],
    'a multiword token': [[[W(0, 1, None, 2)]]],
    'a multiword token of one part': [[[W(0, 1, None, 1), W(0)]]],
    'a multiword token between words': [[[W(0, 0), W(1, 2, None, 3), W(0, 3)]]],
    'a multiword token at the end': [[[W(0, 0, 1), W(1, 2, -1, 2)], [W(0, 1)]]],
    'multiword tokens': [[[W(0, 1, None, 2), W(0, 1, None, 2), W(1, 1)], [W(1, 1, None, 2), W(0, 1), W(0, 0, None, 3)]]],
    'documents ending in multiword tokens': [[[W(0, 1, None, 2)]], [[W(0), W(1, 0, None, 2)], [W(0)]]],
}
SUBSETS = [(), ('LEMMA',), ('UPOS',), ('XPOS',), ('FEATS',), ('DEPREL',), ('HEAD',), ('LEMMA', 'FEATS', 'HEAD', 'DEPREL'), ('UPOS', 'XPOS'),
           ('HEAD', 'LEMMA', 'UPOS', 'XPOS', 'FEATS', 'DEPREL')]


def write(chk, it, name, shape, columns=None, to_file=False):
    A = IO_ + ('CoNLLUWriter.write_to_file' if to_file else 'CoNLLUWriter.write_to_str')
    st = it.start()
    path = sym('path', 'str', nonempty=True)
    it.call_hook = file_hook({})
    D = Docs(it, st)
    docs = [D.doc(x, sym('text%d' % k, 'str')) for k, x in enumerate(shape)]

    def got(s):
        kw = {}
        if columns is not None:
            kw['columns'] = tup(*[it.glob(UD + c) for c in columns])
        w = it.call(it.glob(IO_ + 'CoNLLUWriter'), [], kw, None, s, None)
        if to_file:
            return it.call_method(w, 'write_to_file', [path] + docs, None, s, None)
        return it.call_method(w, 'write_to_str', docs, None, s, None)

    def want(s):
        cols = tup(*[const(c) for c in (ALL if columns is None else columns)])
        if to_file:
            it.log(s, const('call'), mk('ext', 'open'), tup(path, const('w'), const('utf-8')), mk('kw', ()), NONE)
            return it.call(it.glob('spec:to_file'), [path, tup(*docs), cols], {}, None, s, None)
        return it.call(it.glob('spec:reference'), [tup(*docs), cols], {}, None, s, None)
    chk.same(name, A, it, st, got, want, effects=('open', 'closed', 'too_late') if to_file else ('open', 'too_late'))


def row(chk, it, name, shape, space, fake):
    A = IO_ + 'to_conll'
    st = it.start()
    it.call_hook = file_hook({})
    d = Docs(it, st).doc(shape)
    n = sym('index', 'int', nonneg=True)
    tokens = lambda s: [it.call_method(d, 'get_token', [const(i)], None, s, None) for i in range(len(shape[0]))]

    def got(s):
        kw = dict([('write_space_after', const(space))] if space is not None else [])
        kw.update([('fake_heads', const(fake))] if fake is not None else [])
        return tup(*[it.call(chk.anchor(it, A), [it.glob(IO_ + 'default_column_extractors'), n, t], kw, None, s, None) for t in tokens(s)])

    def want(s):
        cols = tup(*[const(c) for c in ALL])
        return tup(*[it.call(it.glob('spec:row'), [t, it.get_attr(d, 'text', None, s), add(n, ONE), cols, const(space is not False), const(fake is not False)], {}, None, s, None)
                     for t in tokens(s)])
    chk.same(name, A, it, st, got, want)


def check(chk):
    it = chk.interp()
    it.define(SPEC)
    chk.anchor(it, IO_ + 'CoNLLUWriter')
    A = IO_ + 'CoNLLUWriter.write_to_str'
    for name, shape in SHAPES.items():
        chk.group(name, A, write, chk, it, name, shape)
    for name in ('documents', 'multiword tokens', 'no document'):
        n = 'file of ' + name
        chk.group(n, A, write, chk, it, n, SHAPES[name], None, True)
    for columns in SUBSETS:
        for name in ('a tree', 'a multiword token at the end'):
            n = '%s, columns %s' % (name, ', '.join(columns) or 'none')
            chk.group(n, A, write, chk, it, n, SHAPES[name], columns)
    for space in (None, True, False):
        for fake in (None, True, False):
            n = 'rows, space %s, fake heads %s' % (space, fake)
            chk.group(n, A, row, chk, it, n, [[W(0, 3, 1), W(1, 0, None), W(0, 1, -1)]], space, fake)
