"""Training methods by name, the baseline trainer and the trainer that only tests saved models."""
from .base import *
from .docmodel import *
from . import c25

TR, TG = 'babylondigger.evaluation.trainers:', 'babylondigger.tagger:'
RULE = ('for every name: the trainer of the method is a new one of the class of that name, any other name is NotImplementedError; '
        'for all training documents: the baseline trainer gives the tagger of the POS that most tokens have, tested once if there '
        'is a dev tester; the pretrained trainer tests and yields the saved taggers in the order of their paths')
ASSUMPTIONS = ['of several most frequent POS values any one is right; here: the one counted first']
CLASSES = {'stub': TG + 'StubTaggerTrainer', 'neural': c25.T_ + 'NeuralTaggerTrainer',
           'neural_pretrained': c25.T_ + 'PretrainedTaggerTrainer'}
SPEC = '''
from collections import Counter
from babylondigger.datamodel import Token, Document
from babylondigger.tagger import StubTagger
def frequent(documents):
    return Counter(t.pos for d in documents for t in d.tokens).most_common(1)[0][0]
def tagged(pos, docs):
    return [Document.from_document(d, [Token.with_morphology(t, pos, t.text) for t in d.tokens]) for d in docs]
def baseline(documents, docs):
    return [tagged(frequent(documents), docs)]
def tested(documents, dev):
    t = StubTagger(frequent(documents))
    return [(dev(t), t)]
'''
DEV = sym('dev_tester')


def names(chk):
    it = chk.interp()
    A = TR + 'get_trainer'
    f = chk.anchor(it, A)
    st = it.start()
    for n, c in CLASSES.items():
        v, s, raises = it.run(lambda s: it.call(f, [const(n)], {}, None, s, None), st.copy())
        for r in raises:
            chk.never('method %s: no exception' % n, A, r.st, '%s at %s' % (show(r.exc)[:80], r.where))
        if v is None:
            raise Bad('method %s never gives a trainer' % n)
        o = it.obj(s, v)
        chk.must('method %s: a trainer of its class' % n, A, o is not None and v.op == 'ref' and str(o[0]) == 'inst' and o[2] is mk('cls', c),
                 'gives %s %s' % (show(v)[:80], o and o[2]))
        w, s, raises = it.run(lambda s: it.call(f, [const(n)], {}, None, s, None), s)
        chk.must('method %s: a new trainer every time' % n, A, w is not None and w is not v, 'the same trainer is given twice')
    for name in ('Stub', 'other', '', 'neural_'):
        v, s, raises = it.run(lambda s: it.call(f, [const(name)], {}, None, s, None), st.copy())
        chk.must('an unknown method is NotImplementedError', A, v is None and raises and all(
            r.exc.op == 'exc' and r.exc.args[0] == 'NotImplementedError' for r in raises), 'the name %r is accepted or gives another error' % name)
    B = TR + 'trainer_names'
    g = chk.anchor(it, B)
    v, s, raises = it.run(lambda s: it.freeze(it.call(g, [], {}, None, s, None), s), st.copy())
    if v is None or raises:
        raise Bad('the list of methods is not given')
    chk.must('the methods listed are those that can be chosen', B, v.op == 'frz' and sorted(
        cval(e[1]) if e[0] == 'el' and e[1].op == 'const' else '' for e in v.args[1]) == sorted(CLASSES), 'lists %s' % show(v))


def baseline(chk, tested):
    it = install_docs(chk.interp())
    it.define(SPEC)
    A = TG + 'StubTaggerTrainer.train'
    chk.anchor(it, A)
    record_documents(it)
    st = it.start()
    training, docs = sym('training', 'list'), sym('docs', 'list')
    for x in (training, docs):
        ELEM_OF[x] = lambda x, i: mk('obj', DOC, x, i)
    L = lambda s, *xs: it.new_list(s, tuple(('el', x) for x in xs))
    run = lambda s, x: norm_segs(it.iter_segs(x, s, None, None))
    trained = lambda s, **kw: run(s, it.call_method(it.call(it.glob(TG + 'StubTaggerTrainer'), [], {}, None, s, None), 'train', [training],
                                                    None, s, None, dict(kw, seed=sym('seed', 'int'))))
    if tested:
        st.assume(not_(eq(DEV, NONE)))
        chk.same('the baseline tagger is tested once', A, it, st, lambda s: it.new_list(s, trained(s, dev_tester=DEV)),
                 lambda s: it.call(it.glob('spec:tested'), [training, DEV], {}, None, s, None), effects=('dev_tester',))
        return

    def got(s):
        segs = trained(s)
        if any(g[0] != 'el' for g in segs):
            raise Undecided('the number of taggers is not known')
        return L(s, *[it.new_list(s, run(s, it.call_method(g[1], 'tag', [docs], None, s, None))) for g in segs])
    chk.same('the baseline tagger', A, it, st, got, lambda s: it.call(it.glob('spec:baseline'), [training, docs], {}, None, s, None))


def check(chk):
    chk.group('names', TR + 'get_trainer', names, chk)
    for tested in (False, True):
        chk.group('baseline', TG + 'StubTaggerTrainer.train', baseline, chk, tested)
    chk.group('pretrained', c25.T_ + 'PretrainedTaggerTrainer.train', c25.pretrained, chk)
