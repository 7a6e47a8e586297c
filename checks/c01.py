"""Derived tokens change only the layer their constructor names."""
from .base import *
from .model import *
from .c04 import spans_of_parts
from .c05 import filling

RULE = ('for every token t, layer values v and derivation d in {with_morphology, with_syntax, with_extras, '
        'update_extras, fill_heads}: every accessor of d(t, v) equals the accessor of t, except the layer d names, '
        'which equals v; constructors keep every argument')

ACC = ['start', 'end', 'sub_index', 'text_replacement', 'pos', 'lemma', 'deprel', '_head_document_index',
       '_head_sentence_index']
VIEW = {'Token': ['has_head', 'is_root', 'is_multiword'],
        'DocumentToken': ['has_head', 'is_root', 'is_multiword', 'text', 'doc_text', 'space_after']}
SYNTAX = {'has_head', 'is_root'}


def start(chk, cls):
    it = install(chk.interp())
    chk.anchor(it, DM + cls)
    t = obj(cls, 't')
    return it, t, it.start(*token_inv(inner_token(t)))


def read(it, x, name, st):
    v, s, raises = it.run(lambda s: it.freeze(it.get_attr(x, name, None, s), s), st)
    if v is None or raises:
        raise Undecided('reading %s' % name)
    return v


def compare(chk, it, res, st, t, name, anchor, cls, changed):
    """changed: accessor -> expected value"""
    for a in ACC + VIEW[cls]:
        if a in changed:
            if changed[a] is None:
                continue
            want = changed[a]
        else:
            want = read(it, t, a, st)
        chk.eq('%s.%s: %s' % (cls, name, a), anchor, read(it, res, a, st), want, st)


def extras_of(it, x, st):
    v, s, r = it.run(lambda s: it.freeze(it.call_method(it.get_attr(x, 'extras', None, s), 'as_dict', [], None, s, None), s), st)
    if v is None or r:
        raise Undecided('reading extras')
    return v


def ctor(chk, cls):
    it, t, st = start(chk, cls)
    tt = inner_token(t)
    want = {'_head_document_index': attr(tt, 'head_document_index'), '_head_sentence_index': attr(tt, 'head_sentence_index')}
    for a in ACC:
        chk.eq('%s(...).%s is the constructor argument' % (cls, a), DM + cls + '.__init__',
               read(it, t, a, st), want.get(a, attr(tt, a)), st)
    chk.eq('%s(...).extras holds the constructor argument' % cls, DM + cls + '.__init__', extras_of(it, t, st),
           mk('attr', of('TokenExtras', tt), 'extras@dict', kind='dict'), st)
    if cls == 'DocumentToken':
        txt = attr(t, 'document_text')
        chk.eq('DocumentToken.doc_text is the covered text', DM + cls + '.doc_text', read(it, t, 'doc_text', st),
               slice_(txt, attr(tt, 'start'), attr(tt, 'end')), st)
        chk.eq('DocumentToken.text', DM + cls + '.text', read(it, t, 'text', st),
               ite(eq(attr(tt, 'text_replacement'), NONE), slice_(txt, attr(tt, 'start'), attr(tt, 'end')),
                   attr(tt, 'text_replacement')), st)


def run(it, st, fn):
    v, s, raises = it.run(fn, st.copy())
    if v is None:
        raise Bad('never returns a token (%s)' % ', '.join('%s at %s' % (show(r.exc), r.where) for r in raises))
    return v, s, raises


def no_raise(chk, name, anchor, raises):
    for r in raises:
        chk.never('%s raises nothing' % name, anchor, r.st, '%s raised at %s' % (show(r.exc), r.where))
    if not raises:
        chk.add('PROVED', '%s raises nothing' % name, anchor)


def morphology(chk, cls):
    it, t, st = start(chk, cls)
    p, l = sym('newpos'), sym('newlemma', 'str', nullable=True)
    anchor = DM + cls + '.with_morphology'
    v, s, r = run(it, st, lambda s: it.call_method(t, 'with_morphology', [t, p, l], None, s, None))
    no_raise(chk, cls + '.with_morphology', anchor, r)
    compare(chk, it, v, s, t, 'with_morphology', anchor, cls, {'pos': p, 'lemma': l})
    chk.eq('%s.with_morphology: extras' % cls, anchor, extras_of(it, v, s), extras_of(it, t, s), s)


def syntax(chk, cls):
    it, t, st = start(chk, cls)
    d = sym('newdeprel', 'str', nullable=True)
    hd, hs = sym('newhead_document', 'int', nullable=True), sym('newhead_sentence', 'int', nullable=True)
    anchor = DM + cls + '.with_syntax'
    v, s, r = run(it, st, lambda s: it.call_method(t, 'with_syntax', [t, d], None, s, None,
                                                   {'head_document_index': hd, 'head_sentence_index': hs}))
    no_raise(chk, cls + '.with_syntax', anchor, r)
    compare(chk, it, v, s, t, 'with_syntax', anchor, cls,
            {'deprel': d, '_head_document_index': hd, '_head_sentence_index': hs,
             'has_head': or_(not_(eq(hd, NONE)), not_(eq(hs, NONE))),
             'is_root': or_(eq(hd, const(-1)), eq(hs, const(-1)))})
    chk.eq('%s.with_syntax: extras' % cls, anchor, extras_of(it, v, s), extras_of(it, t, s), s)


def extras(chk, cls):
    it, t, st = start(chk, cls)
    x = obj('TokenExtras', 'newextras')
    anchor = DM + cls + '.with_extras'
    v, s, r = run(it, st, lambda s: it.call_method(t, 'with_extras', [t, x], None, s, None))
    no_raise(chk, cls + '.with_extras', anchor, r)
    compare(chk, it, v, s, t, 'with_extras', anchor, cls, {})
    chk.eq('%s.with_extras: extras' % cls, anchor, extras_of(it, v, s), attr(x, 'extras@dict'), s)


def update(chk, cls):
    anchor = DM + cls + '.update_extras'
    for case in ('none', 'some'):
        it, t, st = start(chk, cls)
        u = NONE if case == 'none' else sym('updates', 'dict')
        v, s, r = run(it, st, lambda s: it.call_method(t, 'update_extras', [t, u], None, s, None))
        no_raise(chk, cls + '.update_extras', anchor, r)
        compare(chk, it, v, s, t, 'update_extras(%s)' % case, anchor, cls, {})
        old = extras_of(it, t, s)
        if case == 'none':
            chk.eq('%s.update_extras(None): extras' % cls, anchor, extras_of(it, v, s), old, s)
            continue
        k = sym('key', 'str')
        both = extras_of(it, v, s)
        inu, ino = mk('in', k, u, kind='bool'), mk('in', k, erase(old), kind='bool')
        for nm, conds, want in (('updated key', [inu], item(u, k)), ('other key', [not_(inu), ino], item(erase(old), k))):
            s2 = s.copy()
            for c in conds:
                s2.assume(c)
            got, s3, r3 = it.run(lambda z: it.freeze(it.call_method(it.get_attr(v, 'extras', None, z), '__getitem__', [k], None, z, None), z), s2)
            if got is None:
                raise Bad('no value for an %s' % nm)
            chk.eq('%s.update_extras: %s' % (cls, nm), anchor, got, want, s3)


def fill(chk, cls):
    it, t, st = start(chk, cls)
    n = sym('sentence_start', 'int', nonneg=True)
    anchor = DM + 'Token.fill_heads'
    v, s, r = run(it, st, lambda s: it.call_method(t, 'fill_heads', [t, n], None, s, None))
    compare(chk, it, v, s, t, 'fill_heads', anchor, cls,
            {'_head_document_index': None, '_head_sentence_index': None})
    chk.eq('%s.fill_heads: extras' % cls, anchor, extras_of(it, v, s), extras_of(it, t, s), s)


def check(chk):
    for cls in ('Token', 'DocumentToken'):
        for fn in (ctor, morphology, syntax, extras, update, fill):
            chk.group('%s: %s' % (cls, fn.__name__), DM + cls, fn, chk, cls)
    chk.group('resolved heads', DM + 'Token.fill_heads', filling, chk)
    chk.group('proper spans', DM + 'Token.__init__', spans_of_parts, chk)
