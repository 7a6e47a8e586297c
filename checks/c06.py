"""Syntax is validated: a validated document holds a tree or nothing for every sentence."""
import itertools
from .base import *
from .docmodel import *
from .docmodel import DM

TK = DM + 'Token'
RULE = ('for every assignment of heads (none, root, every token of the sentence, one outside) to the tokens of a sentence of up to 4 '
        'tokens, alone or behind another sentence: the validating constructor of Document completes iff no token has a head, or '
        'exactly one token is the root and every other one reaches it over heads inside the sentence; else it raises ValueError')
ASSUMPTIONS = ['sentences of up to 4 tokens are unrolled']


def valid(heads):
    n = len(heads)
    if all(h is None for h in heads):
        return True
    if any(h is None or not -1 <= h < n for h in heads) or heads.count(-1) != 1:
        return False
    for i in range(n):
        for _ in range(n):
            i = heads[i]
            if i == -1:
                break
        if i != -1:
            return False
    return True


def sentence(chk, it, name, before, heads, document):
    """heads of one sentence behind the sentences of the given heads"""
    A = DM + 'Document.__init__'
    st = it.start()
    L = lambda s, xs: it.new_list(s, tuple(('el', x) for x in xs))
    start = sum(len(x) for x in before)
    sents = before + [heads]

    def build(s):
        ts, ss, i = [], [], 0
        for hs in sents:
            a = i
            for h in hs:
                kw = {} if h is None else {'head_document_index': const(h + a if h >= 0 else h)} if document else \
                    {'head_sentence_index': const(h)}
                ts.append(it.call(it.glob(TK), [const(i), const(i + 1)], kw, None, s, None))
                i += 1
            ss.append(it.call(it.glob(DM + 'Sentence'), [const(a), const(i)], {}, None, s, None))
        return it.call(it.glob(DM + 'Document'), [const('x' * i), L(s, ts), L(s, ss)], {'validate_syntax': TRUE}, None, s, None)
    v, s, raises = it.run(build, st)
    ok = all(valid(h) for h in sents)
    kinds = sorted(set(r.exc.args[0] if r.exc.op == 'exc' else show(r.exc) for r in raises))
    if ok:
        chk.must(name + ' is accepted', A, v is not None and not raises, 'raises %s at %s' % (kinds, [r.where for r in raises]))
    else:
        chk.must(name + ' is refused', A, v is None and kinds == ['ValueError'],
                 'is accepted' if v is not None else 'raises %s' % kinds)


def check(chk):
    A = DM + 'Document.__init__'
    it = install(chk.interp())
    chk.anchor(it, DM + 'Document')
    for n in range(1, 4):
        for heads in itertools.product([None, -1] + list(range(n + 1)), repeat=n):
            name = 'heads %s' % list(heads)
            chk.group(name, A, sentence, chk, it, name, [], list(heads), False)
    for heads in itertools.product([None, -1, 0, 1, 2], repeat=2):
        for before in ([[-1]], [[None, None]], [[1, -1, 1]]):
            name = 'heads %s behind %s' % (list(heads), before)
            chk.group(name, A, sentence, chk, it, name, before, list(heads), True)
    for heads in itertools.product([-1, 0, 1, 2, 3], repeat=4):
        if heads.count(-1) <= 1:
            name = 'heads %s' % list(heads)
            chk.group(name, A, sentence, chk, it, name, [], list(heads), False)
    for heads in ([-1], [None, None], [1, -1, 1], [0], [None, -1], [-1, -1], [-1, 2], [2, -1], [3, -1], [2, 2]):
        for after in ([-1], [0], [-1, 0]):
            name = 'heads %s before %s' % (heads, after)
            chk.group(name, A, sentence, chk, it, name, [heads], after, False)
