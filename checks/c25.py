"""The training run of the neural tagger."""
from .base import *
from .docmodel import *

T_ = 'babylondigger.neural.tagger.neural_tagger:'
NW_ = 'babylondigger.neural.tagger.network_provider:get_nn_builder'
MODEL, PROV = 'babylondigger.neural.model:Model', 'babylondigger.features.provider:FeatureExtractorBuilderProvider'
RULE = ('the run of the trainer equals a reference program: the network of the configured parts is built for the shapes of the '
        'features of the training documents and initialised with their values; every epoch trains once on each batch of '
        'consecutive sentences (features with the configured replacement rate, labels without, dropout and learning rate fed), '
        'then saves the tagger under the name of the epoch, tests it and yields scores and tagger; the session is closed at the end')
ASSUMPTIONS = ['1-3 documents of 0-3 sentences, batch sizes 1-4, 1-3 epochs; the value of the learning rate is not specified']

SPEC = '''
import os
from babylondigger.neural.tagger.neural_tagger import NeuralTagger, LazyNeuralTagger

def model_new(network, graph): pass
def model_initialize(values): pass
def model_train(features, labels): pass
def model_predict(features): pass
def model_save(path): pass
def model_close(): pass
def network_builder(shared, tasks, general, seed): pass
def provider(parts, documents): pass

class FakeModel(object):
    def __init__(self, network, graph):
        model_new(network, graph)
    def initialize(self, **kwargs):
        model_initialize(kwargs)
    def train(self, features, labels):
        return model_train(features, labels)
    def predict(self, features):
        return model_predict(features)
    def save(self, path):
        model_save(path)
    def close(self):
        model_close()
    def __enter__(self):
        return self
    def __exit__(self, *args):
        self.close()

class FakeProvider(object):
    def __init__(self, parts):
        self.parts = parts
    def build(self, documents):
        return provider(self.parts, documents)

def saved(path, dev):
    out = []
    for p in sorted(os.path.join(r, d) for r, ds, fs in os.walk(path) for d in ds):
        t = LazyNeuralTagger(p)
        out.append((dev(t), t))
    return out

def reference(documents, dev, fmt, cfg):
    nn = cfg['nn_config']
    b = network_builder(nn['shared_part'], [nn[t] for t in cfg['tasks']], nn['general'], cfg['seed'])
    features, labels, interpreter, initializer = provider(b.feature_providers(), documents)
    network, graph = b.build(initializer.shapes())
    model = FakeModel(network, graph)
    model.initialize(**initializer.initial_values())
    sents = [s for d in documents for s in d.sentences]
    size = cfg['batch_size']
    rate = nn['shared_part']['config'].get('sparse_input_prob', 0)
    out = []
    for epoch in range(cfg['epochs']):
        for i in range(0, len(sents), size):
            batch = sents[i:i + size]
            gold = labels.get_features(batch)
            gold['dropout_probability'] = cfg['dropout']
            gold['learning_rate'] = 1
            model.train(features.get_features(batch, sparse_rate=rate), gold)
        tagger = NeuralTagger(features, model, interpreter).save(os.path.join(cfg['model_dir'], fmt.format(epoch)))
        if dev is not None:
            out.append((dev(tagger), tagger))
    model.close()
    return out
'''
FEATS, LABELS, INTERP, INIT, BUILDER, DEV = [sym(x) for x in ('features', 'labels', 'interpreter', 'initializer', 'builder', 'dev_tester')]
EFFECTS = ('model_new', 'model_initialize', 'model_train', 'model_predict', 'model_save', 'model_close', 'network_builder', 'provider',
           'dev_tester', 'makedirs', 'mkdir', 'dump', 'rmtree', 'remove')
NON_NONE.update(('batch_of', 'trained'))


class Run(object):
    def __init__(self, chk, sizes):
        self.it = it = chk.interp()
        it.define(SPEC)
        self.st = s = it.start()
        self.L = lambda xs: it.new_list(s, tuple(('el', x) for x in xs))
        docs = []
        for k, n in enumerate(sizes):
            toks = [it.call(it.glob(DM + 'Token'), [const(i), const(i + 1)], {}, None, s, None) for i in range(n)]
            sents = [it.call(it.glob(DM + 'Sentence'), [const(i), const(i + 1)], {}, None, s, None) for i in range(n)]
            docs.append(it.call(it.glob(DM + 'Document'), [const(chr(97 + k) * max(n, 1)), self.L(toks), self.L(sents)], {}, None, s, None))
        self.docs = docs
        it.call_hook = self.hook

    def log(self, I, s, name, *args):
        I.log(s, const('call'), mk('ext', name), tup(*[I.freeze(a, s) for a in args]), mk('kw', ()), NONE)

    def hook(self, I, f, args, kw, fr, s, node):
        q, recv, pos = callee(I, f, args)
        fz = lambda x: I.freeze(x, s)
        if f.op == 'cls' and f.args[0] in (MODEL, PROV):
            raise_ = len(args) + len(kw)
            if f.args[0] == PROV and raise_ == 1:
                return I.call(I.glob('spec:FakeProvider'), args + list(kw.values()), {}, fr, s, node)
            raise Undecided('construction of %s' % f.args[0])
        if q == MODEL + '.new':
            a = pos + [kw[k] for k in ('network', 'tf_graph') if k in kw]
            return I.call(I.glob('spec:FakeModel'), a, {}, fr, s, node)
        if q in (NW_, 'spec:network_builder'):
            a = pos + [kw[k] for k in ('shared', 'tasks', 'config', 'seed') if k in kw]
            self.log(I, s, 'network_builder', *a)
            return BUILDER
        if q == 'spec:provider':
            segs = norm_segs(I.iter_segs(pos[0], s, fr, node))
            self.log(I, s, 'provider', I.new_list(s, segs), pos[1])
            return tup(FEATS, LABELS, INTERP, INIT)
        if q and q.startswith('spec:model_'):
            if q == 'spec:model_train':
                # the learning rate is fed, whatever its value
                d = fz(pos[1])
                if d.op != 'frz' or d.args[0] != 'dict' or not all(e[0] == 'kv' for e in d.args[1]):
                    raise Undecided('labels %s' % show(d)[:200])
                d = mk('frz', 'dict', tuple(sorted((('kv', e[1], ZERO if e[1] is const('learning_rate') else e[2]) for e in d.args[1]),
                                                   key=lambda e: str(cval(e[1])))), kind='dict')
                self.log(I, s, 'model_train', pos[0], d)
                return sym('loss', 'float')
            self.log(I, s, q[5:], *pos)
            return NONE
        if f.op == 'attr' and f.args[1] == 'get_features' and f.args[0] in (FEATS, LABELS):
            els = lit_els(norm_segs(I.iter_segs(args[0], s, fr, node)))
            if els is None:
                raise Undecided('a batch of unknown length')
            segs = tuple(('el', self.identity(I, x, s)) for x in els)
            rate = kw.get('sparse_rate', args[1] if len(args) > 1 else ZERO)
            if set(kw) - {'sparse_rate'} or (f.args[0] is LABELS and rate is not ZERO):
                raise Bad('%s extracted with %s' % (f.args[0].args[0], {k: show(v)[:60] for k, v in kw.items()}))
            return I.new_dict(s, (('kv', const(f.args[0].args[0]), mk('batch_of', f.args[0], mk('frz', 'list', segs), rate)),))
        if f.op == 'attr' and f.args[0] is INIT and f.args[1] == 'initial_values':
            return I.new_dict(s, (('kv', const('matrix'), sym('matrix')),))
        if f.op == 'attr' and f.args[0] is BUILDER and f.args[1] == 'build':
            return tup(mk('network', fz(args[0])), mk('graph', fz(args[0])))
        if f.op == 'attr' and f.args[0] is BUILDER and f.args[1] == 'feature_providers':
            return I.new_list(s, (('el', sym('part1')), ('el', sym('part2'))))
        if f is DEV:
            self.log(I, s, 'dev_tester', *args)
            n = sym('accuracy', 'float')
            return I.new_dict(s, (('kv', const('LEMMA'), mk('scores', fz(args[0]))),))
        return None

    def identity(self, I, x, s):
        """a sentence is known by the text of its document and the spans of its tokens"""
        toks = lit_els(norm_segs(I.iter_segs(x, s, None, None)))
        if not toks:
            raise Bad('%s is not a sentence with tokens' % show(I.freeze(x, s))[:200])
        return tup(I.get_attr(x, 'document_text', None, s), *[I.get_attr(t, 'start', None, s) for t in toks])

    def config(self, s, size, epochs, sparse, tasks=('pos', 'lemma')):
        it = self.it
        D = lambda **kw: it.new_dict(s, tuple(('kv', const(k), v) for k, v in kw.items()))
        opt = D(type=const('Adam'), initial_lr=sym('lr', 'float'), lr_decay=sym('decay', 'float'), lr_decrease_factor=sym('factor', 'float'))
        shared = D(sparse_input_prob=sym('rate', 'float')) if sparse else D()
        nn = D(shared_part=D(builder=const('BiLSTM'), config=shared), general=D(optimizer=opt), pos=D(builder=const('pos_dense')),
               lemma=D(builder=const('lemma_dense')), other=D(builder=const('lemma_combo')))
        return dict(seed=sym('seed', 'int'), nn_config=nn, tasks=self.L_(s, [const(t) for t in tasks]), epochs=const(epochs),
                    dropout=sym('dropout', 'float'), batch_size=const(size), model_dir=sym('dir', 'str', nonempty=True))

    def L_(self, s, xs):
        return self.it.new_list(s, tuple(('el', x) for x in xs))


def train(chk, sizes, size, epochs, dev=True, sparse=True, fmt='m-{}', tasks=('pos', 'lemma')):
    r = Run(chk, sizes)
    it = r.it
    A = T_ + 'NeuralTaggerTrainer.train'

    def got(s):
        t = it.call(chk.anchor(it, T_ + 'NeuralTaggerTrainer'), [], {}, None, s, None)
        kw = r.config(s, size, epochs, sparse, tasks)
        if dev:
            kw['dev_tester'] = DEV
        if fmt:
            kw['model_name_format'] = const(fmt)
        x = it.call_method(t, 'train', [r.L_(s, r.docs)], None, s, None, kw)
        return it.new_list(s, norm_segs(it.iter_segs(x, s, None, None)))

    def want(s):
        cfg = it.new_dict(s, tuple(('kv', const(k), v) for k, v in r.config(s, size, epochs, sparse, tasks).items()))
        return it.call(it.glob('spec:reference'), [r.L_(s, r.docs), DEV if dev else NONE, const(fmt or 'epoch-{}'), cfg], {}, None, s, None)
    chk.same('documents of %s sentences, batches of %d, %d epochs%s%s%s' % (
        sizes, size, epochs, '' if dev else ', no dev set', '' if sparse else ', no replacement rate', '' if fmt else ', default name'),
        A, it, r.st, got, want, effects=EFFECTS)


def pretrained(chk):
    it = chk.interp()
    it.define(SPEC)
    st = it.start()
    A = T_ + 'PretrainedTaggerTrainer.train'
    path = sym('dir', 'str', nonempty=True)
    st.assume(not_(eq(DEV, NONE)))

    def got(s):
        t = it.call(chk.anchor(it, T_ + 'PretrainedTaggerTrainer'), [], {}, None, s, None)
        kw = {'dev_tester': DEV, 'model_dir': path, 'seed': sym('seed', 'int')}
        x = it.call_method(t, 'train', [it.new_list(s, ())], None, s, None, kw)
        return it.new_list(s, norm_segs(it.iter_segs(x, s, None, None)))
    chk.same('saved taggers are tested and yielded in the order of their paths', A, it, st, got,
             lambda s: it.call(it.glob('spec:saved'), [path, DEV], {}, None, s, None), effects=('dev_tester',))


def stops(chk, k):
    r = Run(chk, [2, 1])
    it, s = r.it, r.st
    A = T_ + 'NeuralTaggerTrainer.train'
    t = it.call(chk.anchor(it, T_ + 'NeuralTaggerTrainer'), [], {}, None, s, None)
    s.assume(not_(eq(DEV, NONE)))
    kw = dict(r.config(s, 2, 2, True), dev_tester=DEV)
    x = it.call_method(t, 'train', [r.L_(s, r.docs)], None, s, None, kw)
    count = lambda z, n: sum(g[0] == 'el' and len(g[1].args[0]) > 1 and g[1].args[0][1][1] is mk('ext', n) for g in z.heap[LOG][1])
    chk.stopped('the session is closed, though the consumer stops', A, it, x, k, s, lambda z: count(z, 'model_new') == count(z, 'model_close'))


def check(chk):
    for k in (1, 2):
        chk.group('stopped', T_ + 'NeuralTaggerTrainer.train', stops, chk, k)
    A = T_ + 'NeuralTaggerTrainer.train'
    for sizes in ([1], [2, 1], [1, 0, 3], [3, 2]):
        for size in (1, 2, 3, 4):
            chk.group('training', A, train, chk, sizes, size, 1)
    for epochs in (2, 3):
        chk.group('training', A, train, chk, [2, 1], 2, epochs)
        chk.group('training', A, train, chk, [1, 2], 3, epochs, False)
    chk.group('training', A, train, chk, [2, 1], 2, 2, True, False)
    chk.group('training', A, train, chk, [1], 2, 2, True, True, None)
    chk.group('training', A, train, chk, [1], 2, 1, True, True, None, ('lemma',))
    chk.group('training', A, train, chk, [1], 2, 1, True, True, None, ('lemma', 'other', 'pos'))
