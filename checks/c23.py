"""Comparison, averaging and the evaluation run use exactly the configured metrics, seeds, parameter sets and data."""
from .base import *
from .docmodel import *
from engine.terms import NON_NONE

E = 'babylondigger.evaluation.evaluation:'
RULE = ('for all score tables, metric lists, settings and parameter sets: the comparison is by the strict order of the sums of '
        'the extracted metric over the configured fields; an average is field-wise, over all scores; each seed is evaluated '
        'once, with the same trainer, parameters and path; the run evaluates every parameter set and removes models only on '
        'request and only under the model directory')
ASSUMPTIONS = ['1-3 seeds, 1-2 averaged metrics, 1-3 averaged scores are unrolled']

# scores are numbers (of exact arithmetic)
ATTR_KINDS.update({'precision': ('int', False), 'recall': ('int', False), 'f1': ('int', False), 'aligned_accuracy': ('int', True)})

SPEC = '''
import os, shutil

def better(fields, value, new, old):
    return sum(value(new.get(f)) for f in fields) > sum(value(old.get(f)) for f in fields)

def average(metrics, scores):
    n = len(scores)
    res = []
    for m in metrics:
        acc = [s[m].aligned_accuracy for s in scores if s[m].aligned_accuracy is not None]
        res.append((sum(s[m].precision for s in scores) / n, sum(s[m].recall for s in scores) / n,
                    sum(s[m].f1 for s in scores) / n, sum(acc) / n if acc else None))
    return res

def seeds(evaluators, averager, trainer, params, path, tester, name):
    funcs, scores = [], []
    for e in evaluators:
        f, s = e.evaluate(trainer, params, path)
        funcs.append(f)
        scores.append(s)
    a = averager(scores)
    return a, averager([f(tester, name) for f in funcs])

def run(method, settings, candidates, delete_after):
    root = settings['model_dir']
    if delete_after and os.path.exists(root) and os.listdir(root):
        raise ValueError()
    trainer = trainer_named(method)
    data = dataset(settings['train_set']['path'], settings['train_set'].get('shuffler'))
    dev = file_tester(settings['dev_set']['path'], settings['dev_set'].get('results_path'))
    several = isinstance(settings['random_seed'], list)

    def dispose(path):
        if delete_after:
            shutil.rmtree(os.path.join(root, path), ignore_errors=True)

    def evaluate(params, path):
        es = [seed_evaluator(root, seed, settings['cmp_metric'], data, dev, delete_after)
              for seed in (settings['random_seed'] if several else [settings['random_seed']])]
        rs = [e.evaluate(trainer, params, path) for e in es]
        if not several:
            return rs[0]
        fs = [f for f, _ in rs]
        return (lambda tester, name: averaged([f(tester, name) for f in fs])), averaged([s for _, s in rs])

    best = None
    for i, params in enumerate(candidates):
        path = "params-{}".format(i)
        model, scores = evaluate(params, path)
        if best is None or better(settings['cmp_metric'], scores, best[1]):
            if best is not None:
                dispose(best[2])
            best = model, scores, path
        else:
            dispose(path)
    if 'test_set' in settings:
        t = file_tester(settings['test_set']['path'], settings['test_set'].get('results_path'))
        test_scores = best[0](t, "best-test.conll")
        show_scores(test_scores)
    if delete_after:
        shutil.rmtree(root, ignore_errors=True)
'''


STUBS = '''
def dataset(path, shuffler): pass
def trainer_named(method): pass
def file_tester(path, results): pass
def seed_evaluator(root, seed, cmp, data, dev, delete_after): pass
def averaged(scores): pass
def show_scores(scores): pass
def better(cmp, new, old): pass
'''
NON_NONE.update(('scores_of', 'averaged', 'tester_of'))


def comparator(chk):
    it = chk.interp()
    it.define(SPEC)
    st = it.start()
    f = chk.anchor(it, E + 'score_comparator')
    fields, value = sym('fields', 'list'), sym('value')
    new, old = sym('new', 'dict'), sym('old', 'dict')
    ELEM_TYPE[fields] = lambda i: mk('attr', item0(fields, i), '@s', kind='str')

    def hook(I, g, args, kw, fr, s, node):
        if g is value:
            return mk('value_of', *args, kind='int')
        return None
    it.call_hook = hook

    def got(s):
        c = it.call(f, [fields, value], {}, None, s, None)
        return it.call(c, [new, old], {}, None, s, None)

    def want(s):
        return it.call(it.glob('spec:better'), [fields, value, new, old], {}, None, s, None)
    chk.same('a score is better iff its sum is strictly greater', E + 'score_comparator', it, st, got, want)


def item0(x, i):
    return mk('field', x, i)


def averager(chk, names, n):
    it = chk.interp()
    it.define(SPEC)
    st = it.start()
    f = chk.anchor(it, E + 'get_metrics_averager')
    scores = [sym('scores%d' % i, 'dict') for i in range(n)]

    def table(s):
        return it.new_list(s, tuple(('el', it.new_dict(s, tuple(('kv', const(m), mk('score', const(m), x)) for m in names))) for x in scores))

    def got(s):
        c = it.call(f, [it.new_list(s, tuple(('el', const(m)) for m in names))], {}, None, s, None)
        r = it.call(c, [table(s)], {}, None, s, None)
        if it.freeze(it.call(mk('ext', 'len'), [r], {}, None, s, None), s) is not const(len(names)):
            raise Bad('the average has other metrics than the configured ones')
        out = []
        for m in names:
            x = it.get_item(r, const(m), None, s, None)
            out.append(('el', tup(*[it.get_attr(x, a, None, s) for a in ('precision', 'recall', 'f1', 'aligned_accuracy')])))
        return it.new_list(s, tuple(out))

    def want(s):
        return it.call(it.glob('spec:average'), [it.new_list(s, tuple(('el', const(m)) for m in names)), table(s)], {}, None, s, None)
    chk.same('average of %d scores over %d metrics' % (n, len(names)), E + 'get_metrics_averager', it, st, got, want)


def seeds(chk, n):
    it = chk.interp()
    it.define(SPEC)
    st = it.start()
    c = chk.anchor(it, E + 'AverageEvaluator')
    avg, printer, trainer, params = sym('averager'), sym('printer'), sym('trainer'), sym('params', 'dict')
    path, tester, name = sym('model_path', 'str'), sym('tester'), sym('name', 'str')
    evs = [sym('evaluator%d' % i) for i in range(n)]

    def hook(I, g, args, kw, fr, s, node):
        if g.op == 'attr' and g.args[0] in evs and g.args[1] == 'evaluate':
            a = list(args) + [kw[k] for k in ('trainer', 'params', 'model_path')[len(args):] if k in kw]
            a = [I.freeze(x, s) for x in a]
            I.log(s, const('call'), g, tup(*a), mk('kw', ()), NONE)
            return tup(mk('tester_of', g.args[0], *a), mk('scores_of', g.args[0], *a))
        if g is avg:
            return mk('averaged', I.freeze(I.new_list(s, I.iter_segs(args[0], s, fr, node)), s))
        if g.op == 'tester_of':
            return mk('tested', g, *args)
        return None
    it.call_hook = hook
    lst = lambda s: it.new_list(s, tuple(('el', e) for e in evs))

    def got(s):
        o = it.call(c, [lst(s), avg, printer], {}, None, s, None)
        r = it.call_method(o, 'evaluate', [trainer, params, path], None, s, None)
        f, a = it.unpack(r, 2, None, s, None)
        return tup(a, it.call(f, [tester, name], {}, None, s, None))

    def want(s):
        return it.call(it.glob('spec:seeds'), [lst(s), avg, trainer, params, path, tester, name], {}, None, s, None)
    chk.same('%d seeds: each evaluated once, averaged, tested under the same name' % n, E + 'AverageEvaluator.evaluate', it, st, got, want,
             effects=('evaluate',))


def whole(chk, title, seeds_n, candidates, test, results, shuffler, delete):
    """main: everything the settings name is used for what it is named for"""
    it = chk.interp()
    it.define(SPEC.replace('def better(fields', 'def _better(fields') + STUBS)
    st = it.start()
    main = chk.anchor(it, E + 'main')
    anchor = E + 'main'
    cmp_fields, metric = ['Lemmas', 'UPOS'], sym('metric', 'str', nonempty=True)
    printer_fields = ['Words', 'Lemmas']
    S = lambda n: sym(n, 'str', nonempty=True, excl='{}/')
    params = [sym('params%d' % i, 'dict') for i in range(max(1, candidates))]
    root, method = S('model_dir'), S('method')
    seeds_ = [sym('seed%d' % i, 'int') for i in range(max(1, seeds_n))]
    rec = []

    def settings(s):
        D = lambda **kw: it.new_dict(s, tuple(('kv', const(k), v) for k, v in kw.items() if v is not None))
        L = lambda xs: it.new_list(s, tuple(('el', x) for x in xs))
        kw = dict(model_dir=root, metric_printer=D(fields=L(map(const, printer_fields))),
                  cmp_metric=D(fields=L(map(const, cmp_fields)), metric=metric),
                  train_set=D(path=S('train'), shuffler=D(seed=sym('sseed', 'int')) if shuffler else None),
                  dev_set=D(path=S('dev'), results_path=S('dev_results') if results else None),
                  random_seed=L(seeds_) if seeds_n else seeds_[0],
                  test_set=D(path=S('test'), results_path=S('test_results') if results else None) if test else None)
        return D(**kw)

    def named(args, kw, names, defaults=()):
        d = dict(zip(names, args))
        d.update(kw)
        return [d.get(n, NONE) for n in names]

    def hook(I, g, args, kw, fr, s, node):
        q, recv, args = callee(I, g, args)
        if g.op == 'cls':
            q = g.args[0]
        if q == 'babylondigger.evaluation.trainers:get_trainer':
            return mk('trainer_named', args[0])
        if g.op == 'ext' and g.args[0] in ('os.listdir', 'os.walk', 'os.scandir') and len(args) == 1 and not kw:
            # what is in a directory: its directories and its files
            d, fs = mk('attr', args[0], '@directories', kind='list'), mk('attr', args[0], '@files', kind='list')
            if g.args[0] == 'os.walk':
                return I.new_iter(s, (('el', tup(args[0], d, fs)), ('spl', mk('attr', args[0], '@below', kind='list'))))
            return (I.new_list if g.args[0] == 'os.listdir' else I.new_iter)(s, (('spl', d), ('spl', fs)))
        if q == E + 'FileTaggerTester':
            return mk('file_tester', *named(args, kw, ['gold_data_file', 'results_path']))
        if q == DS + 'CoNLLUDataSet':
            return mk('dataset', args[0])
        if q == DS + 'ShuffledDataset':
            a = named(args, kw, ['dataset', 'seed', 'max_batch_size'])
            if a[2] is not NONE:
                raise Undecided('a batch size is given')
            return mk('shuffled', a[0], a[1])
        if q == E + 'score_comparator':
            ex = I.call(named(args, kw, ['fields', 'value_extractor'])[1], [sym('a_score')], {}, fr, s, node)
            return mk('better_by', I.freeze(args[0], s), I.freeze(ex, s))
        if q == E + 'get_metrics_averager':
            fs = I.freeze(I.call(mk('ext', 'sorted'), [args[0]], {}, fr, s, node), s)
            if fs.op == 'frz' and all(x[0] == 'el' and x[1].op == 'const' for x in fs.args[1]):
                rec.append({cval(x[1]) for x in fs.args[1]})
            return mk('averager')
        if q == E + 'get_metrics_printer':
            return mk('printer', I.freeze(args[0], s))
        if q == E + 'SingleSeedEvaluator':
            a = named(args, kw, ['model_base_dir', 'seed', 'is_better_func', 'train_data', 'dev_tester', 'metrics_printer', 'disposable_callback'])
            z = s.copy()
            z.heap[LOG] = (z.heap[LOG][0], ()) + tuple(z.heap[LOG][2:])
            I.call(a[6], [S('victim')], {}, fr, z, node)
            log = mk('frz', 'list', effect_segs(I.freeze_segs(z.heap[LOG][1], z), ('rmtree',)))
            return mk('seed_evaluator', a[0], a[1], a[2], a[3], a[4], log)
        if g.op == 'better_by':
            return mk('better', g, *args, kind='bool')
        if g.op == 'averager':
            return mk('averaged', I.freeze(args[0], s))
        if g.op == 'printer':
            I.log(s, const('call'), mk('ext', 'show_scores'), tup(args[0]), mk('kw', ()), NONE)
            return NONE
        if g.op == 'attr' and g.args[0].op == 'seed_evaluator' and g.args[1] == 'evaluate':
            a = [I.freeze(x, s) for x in named(args, kw, ['trainer', 'params', 'model_path'])]
            I.log(s, const('call'), mk('attr', g.args[0], 'evaluate'), tup(*a), mk('kw', ()), NONE)
            return tup(mk('tester_of', g.args[0], *a), mk('scores_of', g.args[0], *a))
        if g.op == 'tester_of':
            I.log(s, const('call'), mk('ext', 'do_test'), tup(g, *args), mk('kw', ()), NONE)
            return mk('tested', g, *args)
        if g.op in ('tester_of', 'scores_of'):
            return None
        # the reference's vocabulary
        if q == 'spec:dataset':
            return mk('dataset', args[0]) if args[1] is NONE else mk('shuffled', mk('dataset', args[0]), I.get_item(args[1], const('seed'), fr, s, node))
        if q == 'spec:trainer_named':
            return mk('trainer_named', args[0])
        if q == 'spec:file_tester':
            return mk('file_tester', *args)
        if q in ('spec:seed_evaluator', 'spec:better'):
            c = args[2] if q == 'spec:seed_evaluator' else args[0]
            by = mk('better_by', I.freeze(I.get_item(c, const('fields'), fr, s, node), s),
                    mk('app', mk('ext', 'getattr'), (sym('a_score'), metric), ()) if False else getattr_term(I, s, fr))
            if q == 'spec:better':
                return mk('better', by, *args[1:], kind='bool')
            z = s.copy()
            z.heap[LOG] = (z.heap[LOG][0], ()) + tuple(z.heap[LOG][2:])
            if delete:
                I.call(mk('ext', 'shutil.rmtree'), [I.lib.path_join(I, [root, S('victim')])], {'ignore_errors': TRUE}, fr, z, node)
            log = mk('frz', 'list', effect_segs(I.freeze_segs(z.heap[LOG][1], z), ('rmtree',)))
            return mk('seed_evaluator', args[0], args[1], by, args[3], args[4], log)
        if q == 'spec:averaged':
            return mk('averaged', I.freeze(args[0], s))
        if q == 'spec:show_scores':
            I.log(s, const('call'), mk('ext', 'show_scores'), tup(args[0]), mk('kw', ()), NONE)
            return NONE
        return None

    def getattr_term(I, s, fr):
        return I.freeze(I.call(mk('ext', 'getattr'), [sym('a_score'), metric], {}, fr, s, None), s)
    it.call_hook = hook
    cands = lambda s: it.new_list(s, tuple(('el', p) for p in params)) if candidates else params[0]

    def got(s):
        a = it.call(chk.anchor(it, E + '_Arguments'), [settings(s), method, cands(s), TRUE if delete else FALSE], {}, None, s, None)
        return it.call(main, [a], {}, None, s, None)

    def want(s):
        c = it.new_list(s, tuple(('el', p) for p in params))
        return it.call(it.glob('spec:run'), [method, settings(s), c, TRUE if delete else FALSE], {}, None, s, None)
    chk.same('run: ' + title, anchor, it, st, got, want, effects=('evaluate', 'rmtree', 'do_test'))
    if not rec:
        raise Undecided('the averaged metrics are unknown')
    for r in rec[:1]:
        chk.must('run: %s: every compared and printed metric is averaged' % title, anchor, r >= set(cmp_fields + printer_fields),
                 'only %s are averaged' % sorted(r))


DS = 'babylondigger.evaluation.dataset:'


def check(chk):
    M = E + 'main'
    for args in (('one seed, one parameter set', 0, 0, True, False, False, False),
                 ('two seeds, two parameter sets, shuffled, deleted afterwards', 2, 2, True, True, True, True),
                 ('one seed, three parameter sets, deleted afterwards', 0, 3, True, True, False, True),
                 ('one seed in a list, two parameter sets, no test set', 1, 2, False, False, False, False)):
        chk.group('run: ' + args[0], M, whole, chk, *args)

    chk.group('score_comparator', E + 'score_comparator', comparator, chk)
    for names in (('Lemmas',), ('UPOS', 'Lemmas')):
        for n in (1, 2, 3):
            chk.group('get_metrics_averager', E + 'get_metrics_averager', averager, chk, names, n)
    for n in range(0, 4):
        chk.group('AverageEvaluator', E + 'AverageEvaluator.evaluate', seeds, chk, n)
