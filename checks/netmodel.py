"""The network a configuration describes, as a graph of TensorFlow operations, next to its features and labels."""
from .base import *
from .docmodel import *
from .c14 import TRAIN, X

NP = 'babylondigger.neural.tagger.network_provider:'
PR = 'babylondigger.features.provider:FeatureExtractorBuilderProvider'


def D(it, s, d):
    return it.new_dict(s, tuple(('kv', const(k), D(it, s, v) if isinstance(v, dict) else L(it, s, v) if isinstance(v, list) else v)
                                for k, v in d.items()))


def L(it, s, xs):
    return it.new_list(s, tuple(('el', D(it, s, x) if isinstance(x, dict) else x) for x in xs))


SPEC = '''
class Tok(object):
    def __init__(self, text, lemma, pos):
        self.text, self.lemma, self.pos = text, lemma, pos

class Sent(object):
    def __init__(self, tokens):
        self.tokens = tokens
        self.tokens_count = len(tokens)
    def __iter__(self):
        return iter(self.tokens)
    def __len__(self):
        return len(self.tokens)
    def __getitem__(self, i):
        return self.tokens[i]

def firsts(xs):
    return [x[0] for x in xs]

def seconds(xs):
    return [x[1] for x in xs]

def copied(xs):
    return [x for x in xs]
'''

P = lambda name, kind='int': sym(name, kind, **({'nonneg': True} if kind == 'int' else {}))
KERNELS = [{'size': P('k_size'), 'count': P('k_count'), 'dilation': P('k_dil')}]
AGG = {'cnn': {'cnn_kernels': KERNELS}, 'rnn': {'lstm_cell_size': P('sub_lstm'), 'bilstm_layer_count': const(1)}, 'average': {}, 'self-attention': {}}
SEG = {'char': {}, 'bpe': {'language': P('lang', 'str'), 'vocab_size': P('vs')}, 'morfessor': {'path': P('morf', 'str')}}


def words(dense=False):
    r = {'path': P('we_path', 'str'), 'lowercase': FALSE, 'trainable': TRUE}
    if dense:
        r['we_dense_size'] = P('we_dense')
    return r


def trained():
    return {'size': P('te_size'), 'lowercase': FALSE, 'min_frequency': P('te_min'), 'trainable': TRUE}


def subwords(seg, agg, pre=False, highway=False, **kw):
    r = {'segmenter': const(seg), 'segmenter_config': SEG[seg], 'min_frequency': P(seg + '_min'), 'embed_size': P(seg + '_size'),
         'trainable': TRUE, 'aggregator': const(agg), 'aggregator_config': AGG[agg]}
    if pre:
        r['embedding_path'] = P(seg + '_path', 'str')
    if highway:
        r['highway_layer'] = TRUE
    r.update(kw)
    return r


def shared(kind='BiLSTM', skip=None, **features):
    c = {'lstm_cell_size': P('lstm')} if 'LSTM' in kind else {}
    if 'CNN' in kind and kind != 'WE_charCNN':
        c['cnn_kernels'] = KERNELS
    if skip:
        c['skip_connection'] = const(skip)
    return {'builder': const(kind), 'config': c, 'features_config': features}


def task(kind, name, features=None, **config):
    c = {'shared_name': const(name), 'dense_size': P('dense')}
    c.update(config)
    r = {'builder': const(kind), 'config': c}
    if features:
        r['features_config'] = features
    return r


def pos(name, split='pos_joint', **kw):
    return task('pos_dense', name, splitting=const(split), **kw)


RULES = {'lemma_suffix_transformation': {'rules_threshold': ZERO}}


def combo(name, pre=False):
    return task('lemma_combo', name, {'input_subwords': subwords('char', 'cnn', pre), 'output_subwords': {
        'min_frequency': P('out_min'), 'max_word_length': add(P('max_len'), const(4)), 'segmenter': const('char')}},
        cnn_bilstm_dense_size=P('combo_dense'), cnn_kernels=KERNELS, loss_weights={'LEMMA': P('lemma_weight', 'float')})


ALL = dict(word_embedding=words(), word_trained_embedding=trained(), word_characters=subwords('char', 'cnn'))


def hook(I, f, args, kw, fr, s, node):
    q, recv, pos_ = callee(I, f, args)
    name = (q or '').rpartition(':')[2].rpartition('.')[2] if q else f.args[1] if f.op == 'attr' else None
    if q == X + '_read_embeddings':
        p = I.freeze(pos_[0], s)
        v = mk('custom', 'vectors', p, kind='dict')
        return tup(v, mk('custom', 'dimension', p, kind='int'))
    if name == 'encode' and f.op == 'attr':
        return I.new_list(s, (('el', P('piece0', 'str')), ('el', P('piece1', 'str'))))
    if name == 'viterbi_segment':
        return tup(I.new_list(s, (('el', P('morph0', 'str')), ('el', P('morph1', 'str')))), P('cost'))
    if name == 'compute_gradients':
        loss = I.freeze((pos_ + [kw.get('loss')])[0], s)
        opt = f.args[0]
        return I.new_list(s, tuple(('el', tup(mk('custom', 'gradient', loss, opt, const(i)), mk('custom', 'variable', const(i)))) for i in range(2)))
    if f.op == 'ext' and f.args[0] in ('tensorflow.clip_by_global_norm', 'tensorflow.clip_by_norm', 'tensorflow.identity'):
        x = I.freeze(args[0] if args else kw.get('t_list') or kw.get('t') or kw.get('input'), s)
        if f.args[0].endswith('identity'):
            return x
        z = args[1] if len(args) > 1 else kw.get('clip_norm')
        if f.args[0].endswith('global_norm'):
            ys = listed(x)
            if ys is None:
                raise Undecided('gradients %s' % show(x)[:200])
            return tup(I.new_list(s, tuple(('el', mk('custom', 'clipped', x, z, const(i))) for i in range(len(ys)))), mk('custom', 'norm', x))
    if q and q.endswith(':LemmaTransformationTrie.build'):
        return mk('trie')
    if name == 'get_applicable_rules':
        return I.new_list(s, ())
    return None


class Net(object):
    """what one configuration builds"""


def build(chk, sh, tasks, optimizer='Adam'):
    it = chk.interp()
    install_docs(it)
    it.define(SPEC)
    it.MAX_REC = 8
    it.call_hook = hook
    st = it.start()
    get = chk.anchor(it, NP + 'get_nn_builder')
    prov = chk.anchor(it, PR)
    c = lambda n: sym(n, 'str', char=True)
    n = Net()
    n.it, n.session = it, sym('session')

    def batch(s):
        ts = [it.call(it.glob('spec:Tok'), [cat(c('c1'), c('c2')), cat(c('l1'), c('l2')), obj('Pos', 'pos%d' % i)], {}, None, s, None)
              for i in range(2)]
        return it.new_list(s, (('el', it.call(it.glob('spec:Sent'), [it.new_list(s, tuple(('el', t) for t in ts))], {}, None, s, None)),))

    def provided(s, ps):
        r = it.call_method(it.call(prov, [ps], {}, None, s, None), 'build', [TRAIN], None, s, None)
        f, l, i, z = it.unpack(r, 4, None, s, None)
        sh = it.call_method(z, 'shapes', [], None, s, None)
        feats, labels = [it.freeze(it.call_method(x, 'get_features', [batch(s)], None, s, None), s) for x in (f, l)]
        return items(feats), items(labels), sh, it.call_method(z, 'initial_values', [], None, s, None)

    def got(s):
        fz = lambda x: it.freeze(x, s)
        b = it.call(get, [D(it, s, sh), L(it, s, tasks), D(it, s, {'optimizer': {'type': const(optimizer)}}), P('seed')], {}, None, s, None)
        ps = it.call_method(b, 'feature_providers', [], None, s, None)
        n.features, n.labels, shp, vals = provided(s, ps)
        n.shapes, n.values = items(fz(shp)), items(fz(vals))
        n.parts = []                 # per provider: features, labels, shapes, names of the initial values
        for p in it.lib.lit_els(it.iter_segs(ps, s, None, None)):
            f, l, z, v = provided(s, it.new_list(s, (('el', p),)))
            n.parts.append((f, l, items(fz(z)), items(fz(v))))
        net, g = it.unpack(it.call_method(b, 'build', [shp], None, s, None), 2, None, s, None)
        n.loss, n.optimizer = it.unpack(it.call_method(net, 'get_optimizer', [], None, s, None), 2, None, s, None)
        n.outputs = items(fz(it.call_method(net, 'get_outputs', [], None, s, None)))
        n.inputs, n.gold = {}, {}
        n.fed = []
        for names, tensors in ((list(n.features), n.inputs), (list(n.labels) + ['dropout_probability', 'learning_rate'], n.gold)):
            for k in names:
                marker = it.new_dict(s, (('kv', const(k), sym('fed_' + k)),))
                args = [marker] if tensors is n.inputs else [it.new_dict(s, ()), marker]
                n.current = k
                d = fz(it.call_method(net, 'get_feed_dict', args, None, s, None))
                if d.op != 'frz' or len(d.args[1]) != 1 or d.args[1][0][0] != 'kv':
                    raise Undecided('what is fed for %s' % k)
                tensors[k] = d.args[1][0][1]
        n.current = None
        n.all_inputs, n.all_gold = [items(fz(it.get_attr(net, a, None, s))) for a in ('_inputs', '_gold')]
        kw = items(fz(vals))
        for x in it.lib.lit_els(it.iter_segs(it.call_method(net, 'get_initializers', [], None, s, None), s, None, None)):
            it.call(it.get_attr(x, 'initialize', None, s), [n.session], dict(kw), None, s, None)
        n.runs = [e[1] for e in called(s) if e[0].op == 'attr' and e[0].args == (n.session, 'run')]
        n.pairs = {k: tuple(fz(it.call(it.glob('spec:' + f), [x], {}, None, s, None)) for f in ('firsts', 'seconds'))
                   for k, x in kw.items()}
        n.fed = []
        for a in n.runs:
            feed = listed(a)[1] if len(listed(a)) > 1 else None
            feed = {} if feed is None or feed is NONE else {x[1]: x[2] for x in feed.args[1]}
            n.fed.append({k: fz(it.call(it.glob('spec:copied'), [x], {}, None, s, None)) for k, x in feed.items()})
        return NONE
    n.current = None
    v, s, raises = it.run(got, st.copy())
    n.state, n.raises, n.built = s, raises, v is not None
    return n


def called(s):
    """(function, arguments) of the recorded calls, in order"""
    out = []
    for g in s.heap[LOG][1]:
        if g[0] != 'el' or g[1].op != 'tup':
            continue
        e = [x[1] for x in g[1].args[0]]
        if e[0] is const('call'):
            out.append((e[1], e[2]))
    return out


def items(d):
    """the entries of a dict with constant keys"""
    if d.op != 'frz' or d.args[0] != 'dict' or not all(x[0] == 'kv' and x[1].op == 'const' for x in d.args[1]):
        raise Undecided('entries of %s' % show(d))
    return {cval(x[1]): x[2] for x in d.args[1]}


def listed(t):
    """the elements of a list or tuple, or None"""
    from engine.terms import lit_els, norm_segs
    if t.op == 'frz' and t.args[0] in ('list', 'iter'):
        return lit_els(norm_segs(t.args[1]))
    if t.op == 'tup':
        return lit_els(norm_segs(t.args[0]))
    return None


def tf(t):
    """name of the TensorFlow operation a term applies, or None"""
    if t.op == 'app' and t.args[0].op == 'ext' and t.args[0].args[0].startswith('tensorflow.'):
        return t.args[0].args[0][len('tensorflow.'):].replace('math.', '')
    return None


def arg(t, i, *names):
    a, kw = t.args[1], dict(t.args[2])
    for n in names:
        if n in kw:
            return kw[n]
    return a[i] if i is not None and len(a) > i else None


def nodes(*roots):
    """every term below the roots"""
    seen, todo = set(), list(roots)
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        elif isinstance(t, T) and t not in seen:
            seen.add(t)
            todo.extend(t.args)
    return seen


def depth(t):
    """lengths per nesting level and an element of a nested list"""
    n = []
    while True:
        if t.op == 'ite':
            (m, x), (k, y) = depth(t.args[1]), depth(t.args[2])
            if len(m) != len(k):
                raise Undecided('rank of %s' % show(t)[:200])
            return n + [ite(t.args[0], a, b) for a, b in zip(m, k)], x if x is not None else y
        if t.op == 'frz' and t.args[0] in ('list', 'iter'):
            segs = t.args[1]
        elif t.op == 'tup':
            segs = t.args[0]
        elif kind(t) in ('int', 'bool', 'str', 'float', 'obj'):
            return n, t
        else:
            raise Undecided('nesting of %s' % show(t)[:200])
        n.append(len_(t))
        x = None
        for seg in segs:
            while seg[0] in ('gs', 'gen') and (seg[2] if seg[0] == 'gs' else seg[3]):
                seg = seg[2][0] if seg[0] == 'gs' else seg[3][0]
            if seg[0] == 'el':
                x = seg[1]
                break
        if x is None:
            return n, None
        t = x


def must_build(n):
    """the network of a listed configuration is built"""
    for r in n.raises:
        e = r.exc
        if e.op == 'exc' and e.args[0] == 'KeyError' and not n.built:
            raise Bad('building or feeding the network%s raises %s at %s' % (' (%s)' % n.current if n.current else '', show(e), r.where))
    if not n.built:
        raise Undecided('the network is never built: %s' % ', '.join(show(r.exc) for r in n.raises))
