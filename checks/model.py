"""Typed symbolic inputs for the data model."""
from engine.terms import *
from engine import terms as _terms

DM = 'babylondigger.datamodel:'

_terms.ATTR_KINDS.update({
    'start': ('int', False), 'end': ('int', False), 'sub_index': ('int', False),
    'text_replacement': ('str', True), 'lemma': ('str', True), 'deprel': ('str', True),
    'head_document_index': ('int', True), 'head_sentence_index': ('int', True),
    'upos': ('str', True), 'xpos': ('str', True), 'feats': ('dict', True),
    'start_token': ('int', False), 'end_token': ('int', False),
    'document_text': ('str', False), 'pos': (None, True),
})


def obj(cls, name):
    return mk('obj', cls if ':' in cls else DM + cls, name)


def token_inv(t):
    """class invariant of every Token (established by its constructor, checked by C04)"""
    s, e = attr(t, 'start'), attr(t, 'end')
    return [ge0(s), ge0(sub(sub(e, s), ONE)),
            or_(not_(eq(attr(t, 'text_replacement'), NONE)), eq(attr(t, 'sub_index'), ZERO))]


def of(cls, t, role=None):
    """the object of class cls that t holds"""
    return mk('obj', DM + cls, t) if role is None else mk('obj', DM + cls, t, role)


def install(it):
    """typed symbolic objects are what their constructors make of symbolic arguments"""
    def token(I, st, t):
        kw = {n: attr(t, n) for n in ('start', 'end', 'pos', 'lemma', 'deprel', 'sub_index', 'text_replacement',
                                      'head_document_index', 'head_sentence_index')}
        kw['extras'] = of('TokenExtras', t)
        return I.call(mk('cls', DM + 'Token'), [], kw, None, st, None)

    def doctoken(I, st, t):
        return I.call(mk('cls', DM + 'DocumentToken'), [attr(t, 'document_text'), of('Token', t)], {}, None, st, None)

    def extras(I, st, t):
        return I.call(mk('cls', DM + 'TokenExtras'), [_dict(attr(t, 'extras'))], {}, None, st, None)
    def pos(I, st, t):
        return I.call(mk('cls', DM + 'Pos'), [attr(t, 'upos'), attr(t, 'xpos'), _dict(attr(t, 'feats'))], {}, None, st, None)
    it.typed[DM + 'Pos'] = pos
    it.typed[DM + 'Token'] = token
    it.typed[DM + 'DocumentToken'] = doctoken
    it.typed[DM + 'TokenExtras'] = extras
    return it


def _dict(t):
    return mk('attr', t.args[0], t.args[1] + '@dict', kind='dict')


def inner_token(t):
    """the Token whose attributes a typed DocumentToken has"""
    return of('Token', t) if t.args[0] == DM + 'DocumentToken' else t


def _tok(t):
    return sub(sub(attr(t, 'end'), attr(t, 'start')), ONE)


from engine import facts as _facts
_facts.AXIOMS.update({
    (DM + 'Token', 'start'): [lambda t: attr(t, 'start'), _tok],
    (DM + 'Token', 'end'): [lambda t: attr(t, 'start'), _tok],
    (DM + 'Sentence', 'start_token'): [lambda t: attr(t, 'start_token'),
                                       lambda t: sub(sub(attr(t, 'end_token'), attr(t, 'start_token')), ONE)],
    (DM + 'Sentence', 'end_token'): [lambda t: attr(t, 'start_token'),
                                     lambda t: sub(sub(attr(t, 'end_token'), attr(t, 'start_token')), ONE)],
})

_inv3 = lambda t: or_(not_(eq(attr(t, 'text_replacement'), NONE)), eq(attr(t, 'sub_index'), ZERO))
_facts.CLAUSES.update({(DM + 'Token', 'sub_index'): [_inv3], (DM + 'Token', 'text_replacement'): [_inv3]})

from engine import valuate as _valuate
_start, _len = lambda c: abs(c('start')), lambda c: abs(c('end')) % 3 + 1
_sstart, _slen = lambda c: abs(c('start_token')), lambda c: abs(c('end_token')) % 3 + 1
_valuate.INVARIANT.update({
    (DM + 'Token', 'start'): _start, (DM + 'Token', 'end'): lambda c: _start(c) + _len(c),
    (DM + 'Token', 'sub_index'): lambda c: 0 if c('text_replacement') is None else c('sub_index'),
    (DM + 'Sentence', 'start_token'): _sstart, (DM + 'Sentence', 'end_token'): lambda c: _sstart(c) + _slen(c),
})
