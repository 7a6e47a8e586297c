"""The network of a configuration fits the features and labels it is built for."""
from .netmodel import *

ANCHOR = NP + 'get_nn_builder'
RULE = ('for every listed configuration, in the graph of operations the builders make: every feature its extractors compute and '
        'every label has exactly one placeholder of the same name, rank, element type and fixed widths, and reaches the scores; '
        'ids look up a matrix of the announced number of rows, initialised by the values announced for it after the global '
        'initialisation; every label part is predicted as the best of as many scores as announced')
ASSUMPTIONS = ['the listed configurations (every shared builder, feature kind, aggregator, splitting and task builder occurs)']

CONFIGS = []


def conf(name, sh, *tasks):
    CONFIGS.append((name, sh, list(tasks)))


conf('words, trained words, characters; POS', shared(**ALL), pos('bilstm'))
for split in ('pos_UXF', 'pos_XF'):
    conf('POS split ' + split, shared(**ALL), pos('bilstm', split))
conf('dense layer after the word embedding', shared(word_embedding=words(True)), pos('word_features'))
for skip in ('sum', 'concat'):
    conf('BiLSTM, skip connection ' + skip, shared(skip=skip, **ALL), pos('bilstm_and_word_features'))
    conf('dilated CNN, skip connection ' + skip, shared('Dilated_CNN', skip=skip, **ALL), pos('dilated_cnn_and_word_features'))
conf('no sentence level', shared('WE_charCNN', **ALL), pos('word_features'))
conf('BiLSTM and CNN', shared('BiLSTM_CNN', **ALL), pos('bilstm_cnn'))
conf('BiLSTM with skip connection and CNN', shared('BiLSTM_CNN', skip='concat', **ALL), pos('bilstm_cnn'))
for seg, key in (('char', 'word_characters'), ('bpe', 'bpe_subwords'), ('morfessor', 'morfessor_subwords')):
    for pre in (False, True):
        for agg, high in (('cnn', False), ('rnn', True), ('average', False), ('self-attention', True)):
            if seg == 'char' or agg == 'cnn' or pre:
                conf('%s%s, %s' % ('pretrained ' if pre else '', seg, agg), shared(**{key: subwords(seg, agg, pre, high)}), pos('bilstm'))
conf('lemma', shared(**ALL), task('lemma_dense', 'bilstm'))
conf('lemma rules', shared(**ALL), task('lemma_suffix', 'bilstm', RULES))
conf('lemma rules, binary', shared(**ALL), task('lemma_binary', 'bilstm', RULES))
conf('lemma characters', shared(**ALL), combo('bilstm'))
conf('lemma characters, pretrained', shared(**ALL), combo('bilstm', True))
conf('lemma characters, pretrained, and POS', shared(**ALL), combo('bilstm', True), pos('bilstm'))
conf('POS and lemma', shared(**ALL), pos('bilstm', 'pos_UXF'), task('lemma_dense', 'bilstm'))
conf('POS and lemma rules', shared(**ALL), pos('bilstm', 'pos_UXF'), task('lemma_suffix', 'bilstm', RULES))
conf('POS and lemma characters', shared(**ALL), pos('bilstm'), combo('bilstm', True))


def placeholders(chk, n, what, values, tensors, every, extra=()):
    chk.must('%ss and their placeholders have the same names' % what, ANCHOR, set(every) == set(values) | set(extra),
             'the %ss are %s, the placeholders %s' % (what, ', '.join(sorted(values)), ', '.join(sorted(set(every) - set(extra)))))
    for k, v in values.items():
        p = tensors[k]
        if tf(p) not in ('placeholder', 'placeholder_with_default'):
            raise Undecided('placeholder of %s: %s' % (k, show(p)))
        dims = listed(arg(p, 1, 'shape'))
        if dims is None:
            raise Undecided('shape of %s' % k)
        lens, x = depth(v)
        chk.must('%s %s: the placeholder has its rank' % (what, k), ANCHOR, len(dims) == len(lens),
                 'rank %d, but the %s is nested %d deep' % (len(dims), what, len(lens)))
        for i, (d, l) in enumerate(zip(dims, lens)):
            if d is not NONE:
                chk.eq('%s %s: width of dimension %d' % (what, k, i), ANCHOR, d, l, n.state)
        if x is not None and kind(x) in ('int', 'bool'):
            t = arg(p, 0, 'dtype')
            ok = {'int': ('int32', 'int64'), 'bool': ('bool',)}[kind(x)]
            if t is not None and t.op == 'ext':
                chk.must('%s %s: element type' % (what, k), ANCHOR, t.args[0].rpartition('.')[2] in ok,
                         'a placeholder of %s is fed with %s values' % (show(t), kind(x)))


def scores(t, n):
    """per label part: the scores whose best one is the prediction"""
    while tf(t) in ('cast', 'identity', 'to_int32', 'reshape', 'expand_dims', 'squeeze'):
        t = arg(t, 0, 'x', 'input', 'tensor')
    if tf(t) in ('stack', 'concat'):
        xs = listed(arg(t, 0, 'values'))
        if xs is None:
            raise Undecided('parts of %s' % show(t))
        return [y for x in xs for y in scores(x, n)]
    if tf(t) in ('argmax', 'arg_max'):
        ax = arg(t, 1, 'axis', 'dimension')
        if ax is not const(-1):
            if ax is None or ax.op == 'const' and (ax is NONE or cval(ax) in (0, 1, -2, -3, -4)):
                raise Bad('the best is chosen along another axis than the labels: %s' % show(ax or NONE))
            raise Undecided('axis of %s' % show(t))
        return [arg(t, 0, 'input')]
    if tf(t) in ('argmin', 'arg_min'):
        raise Bad('the prediction is the worst label: %s' % show(t))
    raise Undecided('prediction %s' % show(t))


def convolved(t):
    """numbers of channels of a score tensor reshaped from a convolution, or None"""
    if tf(t) != 'reshape' or tf(arg(t, 0, 'tensor')) != 'nn.conv2d':
        return None
    k = arg(arg(t, 0, 'tensor'), 1, 'filter', 'filters')
    z = listed(arg(k, 1, 'shape')) if tf(k) in ('get_variable', 'Variable') else None
    return z[-1] if z else None


def classes(t):
    """number of classes scored by t"""
    if tf(t) == 'where':
        return classes(arg(t, 1, 'x'))
    if tf(t) == 'layers.dense':
        return arg(t, 1, 'units')
    if tf(t) == 'reshape':
        d = listed(arg(t, 1, 'shape'))
        if d:
            return d[-1]
    if tf(t) == 'concat':
        xs = arg(t, 0, 'values')
        if xs.op == 'frz' and xs.args[0] == 'list':
            tot = ZERO
            for seg in xs.args[1]:
                if seg[0] == 'el':
                    tot = add(tot, classes(seg[1]))
                elif seg[0] == 'gen' and len(seg[3]) == 1 and seg[3][0][0] == 'el':
                    tot = add(tot, mul(seg[2], classes(seg[3][0][1])))
                else:
                    raise Undecided('number of classes of %s' % show(t))
            return tot
    raise Undecided('number of classes of %s' % show(t))


def wiring(chk, name, sh, tasks):
    n = build(chk, sh, tasks)
    must_build(n)
    old, chk_name = chk, name
    chk = Named(old, name)
    placeholders(chk, n, 'feature', n.features, n.inputs, n.all_inputs)
    placeholders(chk, n, 'label', n.labels, n.gold, n.all_gold, ('dropout_probability', 'learning_rate'))
    chk.must('every label is predicted', ANCHOR, set(n.outputs) == set(n.labels),
             'labels %s, outputs %s' % (', '.join(sorted(n.labels)), ', '.join(sorted(n.outputs))))
    used = nodes(*n.outputs.values())
    every = nodes(n.loss, *n.outputs.values())
    for k, p in n.inputs.items():
        chk.must('feature %s is used' % k, ANCHOR, p in every, 'neither an output nor the loss depends on it')
    if 'rules' in name:
        chk.must('which rules are applicable is a feature', ANCHOR, [v for v in n.features.values() if boolean(v)], 'no such feature')
    lookups(chk, n, used)
    initial(chk, n, used)
    predictions(chk, n)


class Named(object):
    def __init__(self, chk, name):
        self.chk, self.name = chk, name

    def __getattr__(self, a):
        f = getattr(self.chk, a)
        return (lambda what, *args, **kw: f('%s: %s' % (self.name, what), *args, **kw)) if a in ('must', 'eq', 'add', 'holds') else f


def boolean(v):
    x = depth(v)[1]
    return x is not None and kind(x) == 'bool'


def matrices(n, used):
    """feature name -> shapes of the matrices its ids look up"""
    names = {p: k for k, p in n.inputs.items()}
    out = {}
    for t in used:
        if tf(t) in ('nn.embedding_lookup', 'gather'):
            m, ids = arg(t, 0, 'params'), arg(t, 1, 'ids', 'indices')
            if ids not in names:
                raise Undecided('ids looked up: %s' % show(ids))
            out.setdefault(names[ids], []).append(m)
    return out


def lookups(chk, n, used):
    for k, ms in matrices(n, used).items():
        part = [p for p in n.parts if k in p[0]]
        if len(part) != 1 or len(part[0][2]) < 1:
            raise Undecided('announced size of %s' % k)
        z = part[0][2]
        want = listed(z[k]) if k in z else listed(list(z.values())[0]) if len(z) == 1 else None
        if not want:
            raise Undecided('announced size of %s' % k)
        for m in ms:
            d = arg(m, 1, 'shape') if tf(m) in ('get_variable', 'Variable') else None
            rows = item(d, ZERO) if d is not None else None
            if rows is None:
                raise Undecided('matrix of %s: %s' % (k, show(m)))
            chk.eq('%s: the matrix has a row per id' % k, ANCHOR, rows, want[0], n.state)


def initial(chk, n, used):
    fetched = [listed(a)[0] for a in n.runs]
    g = [i for i, x in enumerate(fetched) if tf(x) in ('global_variables_initializer', 'initialize_all_variables')]
    chk.must('variables are initialised first', ANCHOR, g == [0],
             'runs %s' % ', '.join(show(x)[:60] for x in fetched) if fetched else 'nothing is run')
    own = {}
    for k, ms in matrices(n, used).items():
        for m in ms:
            own[m] = k
    done = []
    for x, fed in zip(fetched, n.fed):
        if tf(x) in ('scatter_update', 'assign'):
            m = arg(x, 0, 'ref')
            if m not in own:
                raise Undecided('use of the matrix initialised by %s' % show(x)[:120])
            done.append(own[m])
            if not [p for p in n.parts if own[m] in p[0] and p[3]]:
                continue
            part = [p for p in n.parts if own[m] in p[0]][0]
            ids, rows = arg(x, 1, 'indices'), arg(x, 2, 'updates')
            if tf(x) != 'scatter_update' or len(part[3]) != 1 or ids not in fed or rows not in fed:
                raise Undecided('values of %s' % show(x)[:120])
            want = n.pairs[list(part[3])[0]]
            chk.eq('%s: rows set' % own[m], ANCHOR, fed[ids], want[0], n.state)
            chk.eq('%s: values of the rows' % own[m], ANCHOR, fed[rows], want[1], n.state)
    want = sorted(k for p in n.parts for k in p[0] if p[3])
    chk.must('exactly the features with initial values have their matrix set to them', ANCHOR, sorted(done) == want,
             'initial values exist for %s, matrices are set for %s' % (', '.join(want) or 'nothing', ', '.join(done) or 'nothing'))


def predictions(chk, n):
    for k, t in n.outputs.items():
        part = [p for p in n.parts if k in p[1]]
        if len(part) != 1:
            raise Undecided('provider of %s' % k)
        z = part[0][2].get(k)
        if z is None:
            raise Undecided('announced sizes of %s' % k)
        sizes = list(items(z).values()) if z.op == 'frz' and z.args[0] == 'dict' else listed(z)
        sc = scores(t, n)
        chk.must('%s: one prediction per part' % k, ANCHOR, len(sc) == len(sizes), '%d parts, %d predictions' % (len(sizes), len(sc)))
        for f in part[0][0]:
            if boolean(n.features[f]):
                for x in sc:
                    applicable(chk, n, k, f, x)
        for i, (x, y) in enumerate(zip(sc, sizes)):
            chk.eq('%s: scores of part %d' % (k, i), ANCHOR, classes(x), y, n.state)
            if convolved(x) is not None:
                chk.eq('%s: channels of part %d' % (k, i), ANCHOR, convolved(x), y, n.state)


def applicable(chk, n, k, f, x):
    """the scores of inapplicable rules are the least possible"""
    if tf(x) != 'where':
        raise Bad('rules are predicted whether they are applicable or not') if n.inputs[f] not in nodes(x) else \
            Undecided('scores %s' % show(x))
    low = arg(x, 2, 'y')
    if tf(arg(x, 1, 'x')) == 'fill':
        raise Bad('applicable rules lose their scores')
    chk.must('%s: only applicable rules keep their scores' % k, ANCHOR, arg(x, 0, 'condition') is n.inputs[f],
             'scores are kept where %s' % show(arg(x, 0, 'condition')))
    v = arg(low, 1, 'value') if tf(low) == 'fill' else None
    if v is not None and (v.op == 'const' and cval(v) > -1e30 or v.op == 'attr' and v.args[1] in ('tiny', 'max', 'eps')):
        raise Bad('an inapplicable rule may still be the best: its score is %s' % show(v))
    if v is None or not (v.op == 'attr' and v.args[1] == 'min'):
        raise Undecided('other scores: %s' % show(low))


def check(chk):
    for name, sh, tasks in CONFIGS:
        chk.group(name, ANCHOR, wiring, chk, name, sh, tasks)
