"""Reading CoNLL-U."""
from .base import *
from .docmodel import *
from .files import *

IO_ = 'babylondigger.evaluation.conllu_io:'
A = IO_ + 'CoNLLUReader._read'
RULE = ('for every script of lines within the bounds (comments, words, multiword ranges, empty nodes, ends of sentences; symbolic '
        'cells) and sentence limit, the documents the reader passes to the constructor of Document equal those of a reference '
        'reader: texts are forms in order with one space behind each unless the line says otherwise, tokens have the spans, parts '
        'and layers of their lines, sentences end at empty lines, documents at the limit or the end; the file is closed once')
ASSUMPTIONS = ['scripts of up to 7 lines; cells are arbitrary texts without tabs and line ends',
               'Document itself is specified by C04-C06', 'every empty line ends a sentence that has words']

SPEC = FILE + '''
from babylondigger.datamodel import Document, Sentence, Token, Pos

def cell(x):
    return None if x == '_' else x

def word(start, end, cells, part, form, columns):
    lemma, upos, xpos, feats, head, deprel = cells
    pos = None
    if 'UPOS' in columns or 'XPOS' in columns or 'FEATS' in columns:
        pos = Pos(cell(upos) if 'UPOS' in columns else None, cell(xpos) if 'XPOS' in columns else None,
                  dict(feats) if 'FEATS' in columns else {})
    h = None
    if head is not None and ('HEAD' in columns or 'DEPREL' in columns):
        h = head - 1
    return Token(start, end, pos, cell(lemma) if 'LEMMA' in columns else None, cell(deprel) if 'DEPREL' in columns else None,
                 part, form, head_sentence_index=h)

def reference(script, limit, columns):
    docs = []
    text, tokens, sentences = '', [], []
    left, part = 0, 0
    for line in script:
        if line[0] == 'end':
            if left > 0:
                raise RuntimeError()
            sentences.append(Sentence(sentences[-1].end if sentences else 0, len(tokens)))
            if len(sentences) == limit:
                docs.append(Document(text, tokens, sentences, validate_syntax=True))
                text, tokens, sentences = '', [], []
        elif line[0] == 'range':
            start, end = len(text), len(text) + len(line[1])
            text = text + line[1] + (' ' if line[2] else '')
            left, part = line[3], 0
        elif left > 0:
            tokens.append(word(start, end, line[3], part, line[1], columns))
            left, part = left - 1, part + 1
        else:
            tokens.append(word(len(text), len(text) + len(line[1]), line[3], 0, None, columns))
            text = text + line[1] + (' ' if line[2] else '')
    if tokens:
        docs.append(Document(text, tokens, sentences, validate_syntax=True))
    closed(None, None)
    return docs
'''
ALL = ('LEMMA', 'UPOS', 'XPOS', 'FEATS', 'DEPREL')
CELL = '\t\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
NON_NONE.update(('newdoc',))
MISC = {True: ('_', 'Gloss=no', 'Gloss=SpaceAfter|Ref=1'), False: ('SpaceAfter=No', 'Gloss=no|SpaceAfter=No', 'SpaceAfter=No|Ref=1')}
FEATURES = ((), (), ('A',), ('B', 'Ab'), ('C', 'A', 'Bc'))


class Lines(object):
    """a script and the lines it stands for"""

    def __init__(self, script, end='\n', last=True):
        self.lines, self.script = [], []
        self.n, self.index, self.left = 0, 0, 0
        self.end = end
        for i, x in enumerate(script):
            getattr(self, 'put_' + x[0])(x)
        if not last:
            x = self.lines[-1]
            assert x.op == 'cat'
            self.lines[-1] = cat(*(x.args[:-1] + (const(cval(x.args[-1])[:-len(end)]),)))

    def cells(self, id, form, misc, cells=None):
        cells = cells or [const('_')] * 7
        cols = [const(id), form] + cells[:7] + [const(misc)]
        assert len(cols) == 10
        parts = []
        for c in cols:
            parts += [c, const('\t')]
        self.lines.append(cat(*(parts[:-1] + [const(self.end)])))

    def cell(self, name):
        return sym('%s%d' % (name, self.n), 'str', excl=CELL)

    def form(self):
        self.n += 1
        return sym('form%d' % self.n, 'str', excl=CELL, nonempty=True)

    def misc(self, space):
        return MISC[space][self.n % len(MISC[space])]

    def put_c(self, x):
        self.lines.append(cat(const('#'), sym('comment%d' % len(self.lines), 'str', excl=CELL), const(self.end)))

    def put_e(self, x):
        self.lines.append(const(self.end))
        self.script.append(tup(const('end')))
        self.index = 0

    def put_x(self, x):                 # an empty node
        self.cells('%d.%d' % (self.index, 1), self.form(), '_', [self.cell(k) for k in ('lemma', 'upos', 'xpos')] + [const('_')] * 4)

    def put_m(self, x):                 # a multiword range of x[1] words
        f = self.form()
        space = len(x) < 3
        self.cells('%d-%d' % (self.index + 1, self.index + x[1]), f, self.misc(space))
        self.script.append(tup(const('range'), f, const(space), const(x[1])))

    def put_w(self, x):                 # a word; x[1] no space after, x[2] bare
        f = self.form()
        self.index += 1
        space = len(x) < 2 or not x[1]
        if len(x) > 2 and x[2]:
            self.cells(str(self.index), f, self.misc(space))
            cells = [const('_')] * 3 + [tup()] + [NONE, const('_')]
        else:
            lemma, upos, xpos, deprel = [self.cell(k) for k in ('lemma', 'upos', 'xpos', 'deprel')]
            h = sym('head%d' % self.n, 'int', nonneg=True)
            names = FEATURES[self.n % len(FEATURES)]
            vals = [sym('value%d_%s' % (self.n, k), 'str', excl=CELL + '|') for k in names]
            feats = []
            for k, v in zip(names, vals):
                feats += [const(('|' if feats else '') + k + '='), v]
            deps = const('_') if self.n % 2 else self.cell('deps')
            self.cells(str(self.index), f, self.misc(space), [lemma, upos, xpos, cat(*feats) if feats else const('_'), to_str(h), deprel, deps])
            cells = [lemma, upos, xpos, tup(*[tup(const(k), v) for k, v in zip(names, vals)]), h, deprel]
        self.script.append(tup(const('word'), f, const(space), tup(*cells)))


def documents(I, f, args, kw, fr, s, node):
    """a document is what its constructor is given"""
    if f.op == 'cls' and f.args[0] == DM + 'Document':
        kw = dict(kw)
        for k, a in zip(('text', 'tokens', 'sentences', 'validate_syntax'), args):
            kw[k] = a
        if set(kw) - {'text', 'tokens', 'sentences', 'validate_syntax'} or 'text' not in kw or 'tokens' not in kw:
            raise Undecided('Document built with %s' % sorted(kw))
        toks = [layers(I, s, t) for t in elements(I, kw['tokens'], s)]
        sents = NONE
        if kw.get('sentences', NONE) is not NONE:
            sents = tup(*[tup(I.get_attr(x, 'start', None, s), I.get_attr(x, 'end', None, s)) for x in elements(I, kw['sentences'], s)])
        return mk('newdoc', I.freeze(kw['text'], s), tup(*toks), sents, I.freeze(kw.get('validate_syntax', FALSE), s))
    return None


def elements(I, x, s):
    els = lit_els(norm_segs(I.iter_segs(x, s, None, None)))
    if els is None:
        raise Undecided('a list of unknown length')
    return els


def read(chk, it, name, script, limit, columns=None, from_file=False, end='\n', last=True):
    A = IO_ + ('CoNLLUReader.read_from_file' if from_file else 'CoNLLUReader.read_from_str')
    L = Lines(script, end, last)
    st = it.start()
    path = sym('path', 'str', nonempty=True)
    it.call_hook = file_hook({path: L.lines}, documents)

    def got(s):
        kw = {}
        if limit is not None:
            kw['doc_sentences_limit'] = const(limit)
        if columns is not None:
            kw['columns'] = tup(*[it.glob('babylondigger.evaluation.conll17_ud_eval:' + c) for c in columns])
        r = it.call(it.glob(IO_ + 'CoNLLUReader'), [], kw, None, s, None)
        if from_file:
            x = it.call_method(r, 'read_from_file', [path], None, s, None)
        else:
            x = it.call_method(r, 'read_from_str', [cat(*L.lines)], None, s, None)
        return it.new_list(s, norm_segs(it.iter_segs(x, s, None, None)))

    def want(s):
        if from_file:
            it.log(s, const('call'), mk('ext', 'open'), tup(path, const('r'), const('utf-8')), mk('kw', ()), NONE)
        cols = tup(*[const(c) for c in (ALL if columns is None else columns)])
        return it.call(it.glob('spec:reference'), [tup(*L.script), const(50 if limit is None else limit), cols], {}, None, s, None)
    chk.same(name, A, it, st, got, want, effects=('open', 'closed', 'too_late'))


W, C, E, X, WN, B, BN = ('w',), ('c',), ('e',), ('x',), ('w', True), ('w', False, True), ('w', True, True)
M2, M3, MN = ('m', 2), ('m', 3), ('m', 2, True)
SCRIPTS = [
    [], [C], [W, E], [C, W, E], [W, WN, E], [WN, W, W, E], [BN, B, E], [W, X, W, E], [X, W, E], [C, C, W, X, E],
    [W, E, WN, E], [W, E, C, W, E, W, E], [W, W, E, W, E], [W, C, W, E],
    [M2, W, W, E], [W, M2, W, W, WN, E], [MN, W, WN, W, E], [M3, B, B, B, W, E], [M2, W, X, W, W, E], [M2, W, W, X, M2, W, W, E],
    [M2, W, W, M2, W, W, E], [M2, W, W, E, M2, W, W, E], [('m', 1), W, W, E], [M2, W, C, W, E], [M3, W, X, X, W, W, E],
    # the end of the file or of the sentence comes too early
    [W], [W, E, W], [W, W, X], [M2, W, W], [M2, W, E], [M2, E], [M3, W, W, E, W, E],
]


def unfinished(chk, it, script):
    A = IO_ + 'CoNLLUReader.read_from_str'
    L = Lines(script)
    it.call_hook = file_hook({}, documents)

    def got(s):
        r = it.call(it.glob(IO_ + 'CoNLLUReader'), [], {}, None, s, None)
        x = it.call_method(r, 'read_from_str', [cat(*L.lines)], None, s, None)
        return it.new_list(s, norm_segs(it.iter_segs(x, s, None, None)))
    v, s, raises = it.run(got, it.start())
    chk.must('a file ending inside a multiword token is refused: %s' % spell(script), A, v is None and bool(raises), 'is read as %s' % (
        show(it.freeze(v, s))[:200] if v is not None else ''))


def spell(script):
    return ' '.join(x[0] + ''.join(str(int(y)) for y in x[1:]) for x in script) or 'empty'


def stops(chk, it, script, k):
    A = IO_ + 'CoNLLUReader.read_from_file'
    L = Lines(script)
    path = sym('path', 'str', nonempty=True)
    it.call_hook = file_hook({path: L.lines}, documents)
    s = it.start()
    r = it.call(it.glob(IO_ + 'CoNLLUReader'), [const(1)], {}, None, s, None)
    x = it.call_method(r, 'read_from_file', [path], None, s, None)
    count = lambda z, n: sum(g[0] == 'el' and len(g[1].args[0]) > 1 and g[1].args[0][1][1] is mk('ext', n) for g in z.heap[LOG][1])
    done = lambda z: count(z, 'open') == count(z, 'closed')
    if k is not None:
        chk.stopped('the file is closed, though the consumer stops: %s' % spell(script), A, it, x, k, s, done)
        return
    v, z, raises = it.run(lambda y: it.iter_segs(x, y, None, None), s)
    for r in raises:
        chk.must('the file is closed, though it is broken: %s' % spell(script), A, done(r.st), 'it is not after %s' % show(r.exc)[:80])


def check(chk):
    it = chk.interp()
    it.define(SPEC)
    chk.anchor(it, IO_ + 'CoNLLUReader')
    A = IO_ + 'CoNLLUReader.read_from_str'
    for script in SCRIPTS:
        for limit in (None, 1, 2):
            name = '%s, %s' % (spell(script), 'limit %d' % limit if limit else 'default limit')
            chk.group(name, A, read, chk, it, name, script, limit)
    many = [W, E] * 3
    for limit in (1, 2, 3, 4):
        name = '3 sentences, limit %d' % limit
        chk.group(name, A, read, chk, it, name, many, limit)
    name = '51 sentences, default limit'
    chk.group(name, A, read, chk, it, name, [B, E] * 51, None)
    for script in ([W, E], [M2, W, W, W, E, W, E], [], [M2, E]):
        name = 'file %s' % spell(script)
        chk.group(name, A, read, chk, it, name, script, 1, None, True)
    for end, last in (('\r\n', True), ('\n', False), ('\r\n', False)):
        for script in ([C, W, WN, E, C, M2, W, W, E, W], [W, E, W, E, W]):
            name = 'ends %r%s' % (end, '' if last else ', unfinished last line')
            chk.group(name, A, read, chk, it, name, script, 1, None, False, end, last)
    for columns in ((), ('LEMMA',), ('UPOS',), ('XPOS',), ('FEATS',), ('DEPREL',), ('HEAD',), ('LEMMA', 'FEATS', 'DEPREL'), ('UPOS', 'XPOS'),
                    ('HEAD', 'LEMMA', 'UPOS', 'XPOS', 'FEATS', 'DEPREL')):
        name = 'columns %s' % (', '.join(columns) or 'none')
        chk.group(name, A, read, chk, it, name, [W, W, W, M2, W, W, B, E], None, columns)
    for k in (1, 2):
        chk.group('stopped', A, stops, chk, it, [W, E, C, W, E, W, E], k)
    for script in ([M2, E], [W, E, M2, W, E], [W, E, E]):
        chk.group('broken', A, stops, chk, it, script, None)
    for script in ([M2, W], [W, M2], [W, E, M3, W, W], [M3, W, W]):
        chk.group('unfinished', A, unfinished, chk, it, script)
