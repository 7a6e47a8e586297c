"""What training minimises, and how."""
from collections import Counter
from .netmodel import *
from . import c21
from .c21 import conf, scores, classes

ANCHOR = NP + 'get_nn_builder'
RULE = ('for every listed configuration, the loss is, as a polynomial over the operations the builders make, the sum over all parts of '
        'all labels of weight * masked cross entropy of the predicted scores and the gold part / number of tokens; dropout, seed and '
        'optimiser are those asked for')
ASSUMPTIONS = ['the listed configurations', 'TensorFlow operations mean what their documentation says']

WEIGHTS = {'UPOS': P('w_upos', 'float'), 'default': P('w_default', 'float')}
CONFIGS = [
    ('POS', shared(**ALL), [pos('bilstm')]),
    ('POS split pos_UXF', shared(**ALL), [pos('bilstm', 'pos_UXF')]),
    ('POS split pos_UXF, weighted', shared(**ALL), [pos('bilstm', 'pos_UXF', loss_weights=WEIGHTS)]),
    ('POS split pos_XF', shared('Dilated_CNN', skip='concat', **ALL), [pos('dilated_cnn_and_word_features', 'pos_XF')]),
    ('BiLSTM with skip connection and CNN', shared('BiLSTM_CNN', skip='concat', **ALL), [pos('bilstm_cnn')]),
    ('no sentence level', shared('WE_charCNN', **ALL), [pos('word_features')]),
    ('lemma', shared(**ALL), [task('lemma_dense', 'bilstm')]),
    ('lemma, weighted', shared(**ALL), [task('lemma_dense', 'bilstm', loss_weights={'LEMMA': P('w_lemma', 'float')})]),
    ('lemma rules', shared(**ALL), [task('lemma_suffix', 'bilstm', RULES)]),
    ('lemma rules, binary', shared(**ALL), [task('lemma_binary', 'bilstm', RULES)]),
    ('lemma characters', shared(**ALL), [combo('bilstm')]),
    ('POS and lemma', shared(**ALL), [pos('bilstm', 'pos_UXF', loss_weights=WEIGHTS), task('lemma_dense', 'bilstm')]),
    ('POS and lemma characters', shared(**ALL), [pos('bilstm'), combo('bilstm', True)]),
    ('lemma rules and POS', shared(**ALL), [task('lemma_suffix', 'bilstm', RULES), pos('bilstm')]),
]


class Mono(object):
    """a product: cross entropies, masks (with their ranks), other factors"""

    def __init__(self, ce=(), masks=(), num=(), den=(), lengths=0, reduced=False):
        self.ce, self.masks, self.lengths, self.reduced = tuple(ce), tuple(masks), lengths, reduced
        self.num, self.den = Counter(num), Counter(den)

    def times(self, o):
        return Mono(self.ce + o.ce, self.masks + o.masks, self.num + o.num, self.den + o.den, self.lengths + o.lengths,
                    self.reduced or o.reduced)

    def scalar(self):
        return not self.ce and not self.masks and not self.lengths


COUNT = 'the number of tokens'


def reduced(m):
    if m.scalar() or m.reduced:
        return m
    if not m.ce and (m.lengths == 1 and not m.masks or not m.lengths and set(m.masks) == {2}):
        return Mono(num=m.num + Counter([COUNT]), den=m.den)
    if m.lengths or not m.ce:
        raise Undecided('a sum over %s' % (m.masks,))
    return Mono(m.ce, m.masks, m.num, m.den, 0, True)


def prod(xs, ys):
    return [x.times(y) for x in xs for y in ys]


def inverse(ms, t):
    if len(ms) != 1 or not ms[0].scalar():
        raise Undecided('division by %s' % show(t)[:200])
    return [Mono(num=ms[0].den, den=ms[0].num)]


def monos(t, n):
    """a tensor as a sum of products"""
    f = tf(t)
    if t is n.lengths:
        return [Mono(lengths=1)]
    if t.op == 'const' or t.op == 'sym' or t.op == 'lin' and all(a.op == 'sym' for a, _ in t.args[1]):
        return [Mono(num=[t] if not (t.op == 'const' and cval(t) == 1) else [])]
    if t.op == 'lin':
        return sum((prod([Mono(num=[] if c == 1 else [const(c)])], monos(a, n)) for a, c in t.args[1]),
                   [Mono(num=[const(t.args[0])])] if t.args[0] else [])
    if t.op == 'add':
        return [y for a in t.args for y in monos(a, n)]
    if t.op == 'mul':
        r = [Mono()]
        for a in t.args:
            r = prod(r, monos(a, n))
        return r
    if t.op == 'div':
        return prod(monos(t.args[0], n), inverse(monos(t.args[1], n), t.args[1]))
    a = lambda i, *names: arg(t, i, *names)
    if f in ('identity', 'cast', 'to_float', 'convert_to_tensor', 'constant', 'squeeze'):
        return monos(a(0, 'x', 'value', 'input'), n)
    if f in ('multiply', 'scalar_mul'):
        return prod(monos(a(0, 'x', 'scalar'), n), monos(a(1, 'y', 'x'), n))
    if f in ('truediv', 'divide', 'div', 'realdiv', 'div_no_nan'):
        return prod(monos(a(0, 'x'), n), inverse(monos(a(1, 'y'), n), a(1, 'y')))
    if f == 'add':
        return monos(a(0, 'x'), n) + monos(a(1, 'y'), n)
    if f in ('reduce_sum', 'add_n') and a(1, 'axis') in (None, NONE):
        x = a(0, 'input_tensor', 'inputs')
        xs = listed(a_of(x, 'values') if tf(x) == 'stack' else x)
        if xs is not None:
            return [y for z in xs for y in monos(z, n)]
        return [reduced(y) for y in monos(x, n)]
    if f == 'expand_dims' or t.op == 'item' and t.args[1].op == 'tup':
        ms = monos(a(0, 'input') if f else t.args[0], n)
        ax = a(1, 'axis') if f else None
        if len(ms) != 1 or ms[0].ce or len(ms[0].masks) != 1:
            raise Undecided('expanded: %s' % show(t)[:200])
        r = ms[0].masks[0]
        if not f:
            xs = listed(t.args[1])
            ax = const(-1) if xs and xs[-1] in (NONE, mk('ext', 'tensorflow.newaxis')) and whole_dims(xs[:-1], r) else None
        if ax is None or ax.op != 'const':
            raise Undecided('expanded: %s' % show(t)[:200])
        if cval(ax) not in (-1, r):
            raise Bad('the mask of sentences and tokens is laid along other dimensions: %s' % show(t)[:200])
        return [Mono(masks=[r + 1], num=ms[0].num, den=ms[0].den)]
    if f == 'reduce_mean' and a(1, 'axis') in (None, NONE):
        x = a(0, 'input_tensor')
        xs = listed(a_of(x, 'values') if tf(x) == 'stack' else x)
        if xs is not None:
            return [y.times(Mono(den=[const(len(xs))])) for z in xs for y in monos(z, n)]
        ms = monos(x, n)
        if all(m.ce and m.masks and not m.reduced for m in ms):
            if tf(x) != 'boolean_mask':
                raise Bad('the average is taken over padding, too: %s' % show(t)[:200])
            if set(ms[0].masks) == {2} and len(ms) == 1:
                return [reduced(ms[0]).times(Mono(den=[COUNT]))]
        raise Undecided('average %s' % show(t)[:200])
    if t.op == 'ite' and all(x.op in ('const', 'sym') for x in choices(t)):
        return [Mono(num=[t])]
    if f in ('reduce_max', 'reduce_min', 'size') or t.op == 'item' and tf(t.args[0]) == 'shape':
        return [Mono(num=[t])]
    if f == 'sequence_mask':
        if a(0, 'lengths') is not n.lengths:
            raise Undecided('mask of %s' % show(t)[:200])
        return [Mono(masks=[2])]
    if f == 'boolean_mask':
        return prod(monos(a(0, 'tensor'), n), monos(a(1, 'mask'), n))
    if f in ('nn.sparse_softmax_cross_entropy_with_logits', 'nn.softmax_cross_entropy_with_logits', 'nn.sigmoid_cross_entropy_with_logits',
             'nn.softmax_cross_entropy_with_logits_v2'):
        return [Mono(ce=[t])]
    raise Undecided('loss %s' % show(t)[:200])


def choices(t):
    return choices(t.args[1]) + choices(t.args[2]) if t.op == 'ite' else [t]


def a_of(t, *names):
    return arg(t, 0, *names)


def whole_dims(xs, n):
    """whether index items keep n whole dimensions"""
    full = mk('custom', 'slice', NONE, NONE, NONE)
    return len(xs) == n and all(x is full for x in xs) or len(xs) == 1 and xs[0] is mk('ext', 'Ellipsis')


def gold_part(t, n):
    """(label, part or None, rank) of a tensor of gold labels"""
    for k, p in n.gold.items():
        if t is p:
            return k, None, len(listed(arg(p, 1, 'shape')))
    if t.op == 'item' and tf(t.args[0]) == 'unstack' and t.args[1].op == 'const':
        k, i, r = gold_part(arg(t.args[0], 0, 'value'), n)
        ax = arg(t.args[0], 2, 'axis')
        if i is None and ax is not None and ax.op == 'const':
            if cval(ax) not in (-1, r - 1):
                raise Bad('gold labels are taken apart along another dimension: %s' % show(t)[:200])
            return k, cval(t.args[1]), r - 1
    if t.op == 'item' and t.args[1].op == 'tup':
        k, i, r = gold_part(t.args[0], n)
        xs = listed(t.args[1])
        if i is None and xs and whole_dims(xs[:-1], r - 1) and xs[-1].op == 'const' and type(cval(xs[-1])) is int:
            return k, cval(xs[-1]), r - 1
    raise Undecided('gold labels %s' % show(t)[:200])


def cross_entropy(t, n):
    """(kind, label, part, rank, scores, number of classes of the gold labels or None)"""
    f = tf(t)
    labels, logits = arg(t, None, 'labels'), arg(t, None, 'logits')
    if labels is None or logits is None:
        raise Undecided('arguments of %s' % f)
    hot = None
    r = 0
    if f != 'nn.sparse_softmax_cross_entropy_with_logits':
        if tf(labels) != 'one_hot':
            raise Undecided('gold labels %s' % show(labels)[:200])
        hot = arg(labels, 1, 'depth')
        labels = arg(labels, 0, 'indices')
        r = 1 if 'sigmoid' in f else 0
    k, i, rank = gold_part(labels, n)
    return 'sigmoid' if 'sigmoid' in f else 'softmax', k, i, rank + r, logits, hot


def loss(chk, name, sh, tasks):
    n = build(chk, sh, tasks)
    must_build(n)
    chk = c21.Named(chk, name)
    ls = [k for k, v in n.features.items() if len(depth(v)[0]) == 1]
    if len(ls) != 1:
        raise Undecided('which feature is the sentence lengths')
    n.lengths = n.inputs[ls[0]]
    found = {}
    for m in monos(n.loss, n):
        if len(m.ce) != 1 or not m.reduced:
            raise Undecided('summand of the loss: %d cross entropies' % len(m.ce))
        c = cross_entropy(m.ce[0], n)
        found.setdefault(c[1], []).append((c, m))
    for k, out in n.outputs.items():
        part = [p for p in n.parts if k in p[1]][0]
        z = part[2][k]
        sizes = items(z) if z.op == 'frz' and z.args[0] == 'dict' else {None: listed(z)[0]}
        binary = 'binary' in name
        whole = 'output_' in k
        sc = scores(out, n)
        for i, part_name in enumerate(sizes):
            what = '%s, part %s' % (k, part_name) if part_name else k
            got = [(c, m) for c, m in found.get(k, []) if c[2] == i or c[2] is None]
            chk.must('%s: is trained once' % what, ANCHOR, len(got) == 1,
                     'the loss has %d summands for it' % len(got))
            if len(got) != 1:
                continue
            (kd, _, _, rank, logits, hot), m = got[0]
            chk.must('%s: the scores trained are those predicted from' % what, ANCHOR, logits is sc[i],
                     'trained: %s; predicted from: %s' % (show(logits)[:200], show(sc[i])[:200]))
            chk.must('%s: kind of cross entropy' % what, ANCHOR, kd == ('sigmoid' if binary else 'softmax'), 'it is %s' % kd)
            if hot is not None:
                chk.eq('%s: classes of the gold labels' % what, ANCHOR, hot, sizes[part_name], n.state)
            chk.must('%s: only tokens count' % what, ANCHOR, len(m.masks) > 0, 'padding is not masked')
            chk.must('%s: the mask fits' % what, ANCHOR, all(x == rank for x in m.masks),
                     'a mask of rank %s for cross entropies of rank %d' % (m.masks, rank))
            w, d = weights(tasks, k, part_name), [COUNT] + ([add(P('max_len'), const(4))] if whole else [])
            num, den = m.num - m.den, m.den - m.num
            if den == Counter(d) and any(x.op == 'ite' for x in num if not isinstance(x, str)):
                # a weight chosen by a condition
                p = lambda xs: mul(*(list(xs) + [ONE] * (2 - len(xs))))
                if len(list(num.elements())) < 3 and len(w) < 3:
                    chk.eq('%s: weight' % what, ANCHOR, p(list(num.elements())), p(w), n.state)
                    continue
            chk.must('%s: weight and average' % what, ANCHOR, num == Counter(w) and den == Counter(d),
                     'it is weighted by %s / %s, not %s / %s' % (name_of(num), name_of(den), name_of(Counter(w)), name_of(Counter(d))))
    extra = set(found) - set(n.outputs)
    chk.must('nothing else is trained', ANCHOR, not extra, ', '.join(extra))
    dropout(chk, n)
    seed(chk, n)
    optimiser(chk, n, 'AdamOptimizer')


def name_of(c):
    return ' * '.join(sorted(x if isinstance(x, str) else show(x)[:100] for x in c.elements())) or '1'


def weights(tasks, k, part):
    """the configured weight of a part of a label"""
    kinds = {'pos': 'pos_dense', 'lemma_labels': 'lemma_dense', 'lemma_rule': 'lemma_suffix', 'output': 'lemma_combo'}
    for t in tasks:
        if any(k.startswith(p) and b == cval(t['builder']) for p, b in kinds.items()):
            w = t['config'].get('loss_weights')
            if w is None:
                return []
            return [w[part] if part in w else w['default'] if 'default' in w else w['LEMMA']]
    return []


def dropout(chk, n):
    keep = n.gold['dropout_probability']
    if tf(keep) != 'placeholder_with_default':
        if tf(keep) == 'placeholder':
            raise Bad('nothing is known to be kept where no dropout is asked for')
        raise Undecided('dropout %s' % show(keep))
    v = arg(keep, 0, 'input')
    chk.must('everything is kept unless dropout is asked for', ANCHOR, v.op == 'const' and cval(v) == 1, 'the default is %s' % show(v))
    for t in nodes(n.loss):
        if tf(t) == 'nn.dropout':
            k, r = arg(t, 1, 'keep_prob'), arg(t, None, 'rate')
            if r is not None:
                ok = r is sub(ONE, keep)
                if not ok and r is not keep and r.op != 'const':
                    raise Undecided('dropout rate %s' % show(r))
            else:
                ok = k is keep
            chk.must('dropout keeps with the fed probability', ANCHOR, ok, 'at %s' % show(t)[-200:])
        elif tf(t) == 'layers.dropout':
            tr = arg(t, 4, 'training')
            chk.must('no other dropout', ANCHOR, tr in (None, FALSE), 'at %s' % show(t)[-200:])


def seed(chk, n):
    ops = []
    for f, a in called(n.state):
        ops.append((f.args[0] if f.op == 'ext' else '.' + f.args[1] if f.op == 'attr' else '', a))
    names = [x[0] for x in ops]
    at = [i for i, x in enumerate(names) if x.endswith('set_random_seed')]
    made = [i for i, x in enumerate(names) if x.rpartition('.')[2] in ('get_variable', 'random_uniform_initializer', 'dense', 'LSTMCell')]
    graph = [i for i, x in enumerate(names) if x == '.as_default']
    if not made or not graph:
        raise Undecided('where variables are made')
    chk.must('the seed is set before variables are made', ANCHOR, [i for i in at if graph[0] < i < made[0]], 'it is not')
    for i in at:
        x = (listed(ops[i][1]) or [NONE])[0]
        chk.must('the seed is the one given', ANCHOR, x is P('seed'), 'it is %s' % show(x))


def optimiser(chk, n, want):
    o = n.optimizer
    if o.op != 'app' or o.args[0].op != 'attr':
        raise Undecided('optimiser %s' % show(o)[:200])
    opt, what = o.args[0].args[0], o.args[0].args[1]
    if opt.op != 'app' or opt.args[0].op != 'ext':
        raise Undecided('optimiser %s' % show(opt)[:200])
    chk.must('optimiser', ANCHOR, opt.args[0].args[0].endswith('.' + want), 'it is %s' % opt.args[0].args[0])
    chk.must('learning rate', ANCHOR, arg(opt, 0, 'learning_rate') is n.gold['learning_rate'], 'it is %s' % show(arg(opt, 0, 'learning_rate') or NONE))
    if what != 'apply_gradients':
        raise Bad('gradients are not clipped') if what == 'minimize' else Undecided('optimiser step %s' % what)
    xs = listed(arg(o, 0, 'grads_and_vars'))
    pairs = [listed(x) for x in xs] if xs is not None else None
    if pairs is None or any(x is None or len(x) != 2 for x in pairs):
        raise Undecided('gradients applied')
    grad = lambda i: mk('custom', 'gradient', n.loss, opt, const(i))
    chk.must('every variable is trained', ANCHOR, [x[1] for x in pairs] == [mk('custom', 'variable', const(i)) for i in range(2)],
             'the variables are %s' % ', '.join(show(x[1])[:60] for x in pairs))
    for i, (g, _) in enumerate(pairs):
        if g.op == 'custom' and g.args[0] == 'gradient':
            raise Bad('gradients are not clipped')
        if g.op != 'custom' or g.args[0] != 'clipped':
            raise Undecided('gradient %s' % show(g)[:100])
        chk.must('gradient of the loss for its variable, all clipped together', ANCHOR,
                 g.args[3] is const(i) and listed(g.args[1]) == [grad(0), grad(1)], 'it is %s' % show(g)[-200:])


def optimisers(chk):
    sh, tasks = shared(word_embedding=words()), [pos('bilstm')]
    for k, want in (('GD', 'GradientDescentOptimizer'), ('Adam', 'AdamOptimizer'), ('RMSProp', 'RMSPropOptimizer')):
        n = build(chk, sh, tasks, k)
        must_build(n)
        optimiser(c21.Named(chk, k), n, want)
    for what, n in (('another optimiser', build(chk, sh, tasks, 'none of them')), ('no task', build(chk, sh, []))):
        if n.built:
            raise Bad('%s is accepted' % what)
        chk.must('%s is an error' % what, ANCHOR, n.raises and n.raises[-1].exc.op == 'exc' and n.raises[-1].exc.args[0] == 'ValueError',
                 'raises %s' % ', '.join(show(r.exc) for r in n.raises))


def check(chk):
    for name, sh, tasks in CONFIGS:
        chk.group(name, ANCHOR, loss, chk, name, sh, tasks)
    chk.group('optimisers', ANCHOR, optimisers, chk)
