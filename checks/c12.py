"""Model selection keeps the best candidate and disposes of every other one, and only of those."""
from .base import *
from .docmodel import *

E = 'babylondigger.evaluation.evaluation:'
RULE = ('for every sequence of up to N candidates with arbitrary scores and an arbitrary comparison: the candidate kept is '
        'the last one that was better than the best before it (the first one initially), its scores are returned, the test '
        'function tests exactly it, and the models disposed of are exactly the other candidates, each once, by the path '
        'under which the trainer stored them')
ASSUMPTIONS = ['candidate sequences are unrolled to 5 epochs / 4 parameter sets; longer ones repeat the same loop body',
               'path components are relative and contain no format fields']

SPEC = '''
import os

def single(pairs, root, name_format, is_better, dispose):
    best_tagger, best_scores, best_path = None, None, None
    i = 0
    for scores, tagger in pairs:
        path = os.path.join(root, name_format.format(i))
        if best_scores is None or is_better(scores, best_scores):
            if best_path is not None:
                dispose(best_path)
            best_tagger, best_scores, best_path = tagger, scores, path
        else:
            dispose(path)
        i += 1
    return best_tagger, best_scores

def search(evaluator, trainer, is_better, dispose, params_list):
    best = (None, None, None, None)
    i = 0
    for params in params_list:
        path = "params-{}".format(i)
        model, scores = evaluator.evaluate(trainer, params, path)
        if best[2] is None or is_better(scores, best[2]):
            if best[3] is not None:
                dispose(best[3])
            best = (params, model, scores, path)
        else:
            dispose(path)
        i += 1
    return best
'''
BETTER, DISPOSE, PRINTER = sym('is_better'), sym('dispose'), sym('printer')
TRAINER, DATA, DEV = sym('trainer'), sym('train_data', 'list'), sym('dev_tester')


def single(chk, n):
    it = chk.interp()
    it.define(SPEC)
    st = it.start()
    c = chk.anchor(it, E + 'SingleSeedEvaluator')
    anchor = E + 'SingleSeedEvaluator.evaluate'
    base, seed = sym('base', 'str', nonempty=True, excl='{}'), sym('seed', 'int')
    mp = sym('model_path', 'str', excl='{}', nonempty=True)
    pairs = [(sym('scores%d' % i), sym('tagger%d' % i)) for i in range(n)]
    rec = {}

    def hook(I, f, args, kw, fr, s, node):
        if f.op == 'attr' and f.args[0] is TRAINER and f.args[1] == 'train':
            rec['args'], rec['kw'] = args, kw
            if 'dev_tester' in kw:
                rec['dev'] = I.freeze(I.call(kw['dev_tester'], [sym('candidate')], {}, fr, s.copy(), node), s)
            return I.new_list(s, tuple(('el', tup(*p)) for p in pairs))
        if f is BETTER:
            return mk('better', *args, kind='bool')
        return None
    it.call_hook = hook
    # scores and taggers the trainer yields are objects
    for a, b in pairs:
        st.assume(not_(eq(a, NONE)))
        st.assume(not_(eq(b, NONE)))
    params = it.new_dict(st, (('el', tup(const('epochs'), sym('epochs', 'int'))),)) if False else it.new_dict(st, ())
    tester, name = sym('tester'), sym('name', 'str', nonempty=True)

    def got(s):
        o = it.call(c, [base, seed, BETTER, DATA, DEV, PRINTER, DISPOSE], {}, None, s, None)
        r = it.call_method(o, 'evaluate', [TRAINER, params, mp], None, s, None)
        f, scores = it.unpack(r, 2, None, s, None)
        t = it.call(f, [tester, name], {}, None, s, None)
        return tup(it.freeze(t, s), scores)
    v, s, r = it.run(got, st.copy())
    if v is None:
        raise Bad('never completes')
    kw = rec.get('kw')
    if kw is None:
        raise Undecided('the trainer is not called')
    root = path(it, mp, mk('str', seed, kind='str'))
    fmt_ = kw.get('model_name_format')
    if fmt_ is None:
        raise Undecided('no model_name_format')
    chk.eq('%d epochs: models are stored under the base directory' % n, anchor, kw.get('model_dir', NONE), path(it, base, root), s)
    chk.eq('%d epochs: seed reaches the trainer' % n, anchor, kw.get('seed', NONE), seed, s)
    chk.must('%d epochs: training data reaches the trainer' % n, anchor, len(rec['args']) == 1 and rec['args'][0] is DATA or
             kw.get('documents') is DATA, 'trainer gets %s' % [show(a) for a in rec['args']])
    d = rec.get('dev')
    chk.must('%d epochs: dev scores come from testing the candidate on the dev set' % n, anchor,
             d is not None and d.op == 'app' and d.args[0] is mk('attr', DEV, 'test') and d.args[1][0] is sym('candidate'),
             'dev_tester computes %s' % (show(d) if d is not None else 'nothing'))

    def want(s):
        w = it.call(it.glob('spec:single'), [it.new_list(s, tuple(('el', tup(*p)) for p in pairs)), root, fmt_, BETTER, DISPOSE], {}, None, s, None)
        t, sc = it.unpack(w, 2, None, s, None)
        x = it.call(attr(tester, 'test'), [t, path(it, root, name)], {}, None, s, None)
        return tup(x, sc)
    chk.same('%d epochs: the best candidate is kept, the others are disposed of' % n, anchor, it, st, got, want, effects=('dispose',))


def path(it, *parts):
    return it.lib.path_join(it, list(parts))


def search(chk, n):
    it = chk.interp()
    it.define(SPEC)
    st = it.start()
    c = chk.anchor(it, E + 'ParametersEstimator')
    anchor = E + 'ParametersEstimator.params_search'
    ev = sym('evaluator')
    ps = [sym('params%d' % i) for i in range(n)]

    def hook(I, f, args, kw, fr, s, node):
        if f.op == 'attr' and f.args[0] is ev and f.args[1] == 'evaluate':
            i = args[1]
            I.log(s, const('call'), f, tup(*[I.freeze(a, s) for a in args]), mk('kw', ()), NONE)
            return tup(mk('model_of', I.freeze(i, s)), mk('scores_of', I.freeze(i, s)))
        if f is BETTER:
            return mk('better', *args, kind='bool')
        return None
    it.call_hook = hook
    for p in ps:
        st.assume(not_(eq(mk('scores_of', p), NONE)))

    def got(s):
        o = it.call(c, [ev, BETTER, DISPOSE], {}, None, s, None)
        r = it.call_method(o, 'params_search', [TRAINER, it.new_iter(s, tuple(('el', p) for p in ps))], None, s, None)
        return tup(*it.unpack(r, 4, None, s, None))

    def want(s):
        return it.call(it.glob('spec:search'), [ev, TRAINER, BETTER, DISPOSE, it.new_list(s, tuple(('el', p) for p in ps))], {}, None, s, None)
    chk.same('%d parameter sets: the best one is returned, the others are disposed of' % n, anchor, it, st, got, want,
             effects=('dispose', 'evaluate'))


def check(chk):
    for n in range(0, 6):
        chk.group('SingleSeedEvaluator', E + 'SingleSeedEvaluator.evaluate', single, chk, n)
    for n in range(0, 5):
        chk.group('ParametersEstimator', E + 'ParametersEstimator.params_search', search, chk, n)
