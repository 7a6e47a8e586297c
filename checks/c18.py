"""A saved model or tagger, loaded again, is the one that was saved."""
from .base import *
from .docmodel import *
from . import c10

N = 'babylondigger.neural.'
RULE = ('over a symbolic file system and graph: whatever save wrote is what load reads (same files, same order of contents, '
        'nothing unpicklable); every tensor and operation of the loaded network is the one of the same name in the graph that '
        'was restored from the saved session; predictions, training steps and initialisation of the loaded model are those of '
        'the saved one; a loaded tagger uses the saved extractor, interpreter and model')
ASSUMPTIONS = ['pickle and the TensorFlow saver reproduce what they stored', '2 inputs, 2 outputs, 3 gold tensors, 2 initialisers']

TENSORS = {n: sym('tensor_' + n) for n in ('in_a', 'in_b', 'out_x', 'out_y', 'gold_x', 'gold_lr', 'gold_drop', 'loss', 'indices', 'values', 'update')}
OPS = {n: sym('op_' + n) for n in ('optimizer', 'init')}
GRAPH = sym('graph')
ATTR_KINDS['name'] = ('str', False)
PATH = sym('path', 'str', nonempty=True)


class World(object):
    """files and sessions as the program sees them"""

    def __init__(self, it, extra=None):
        self.files, self.saved, self.restored, self.n, self.extra = {}, {}, {}, 0, extra
        self.problems = []
        it.call_hook = self.hook

    def context(self, s):
        """contexts entered and not left, from the event log"""
        out = []
        for g in s.heap[LOG][1]:
            if g[0] != 'el' or g[1].op != 'tup':
                continue
            e = [x[1] for x in g[1].args[0]]
            if cval(e[0]) == 'enter':
                out.append(e[1])
            elif cval(e[0]) == 'exit' and e[1] in out:
                out.remove(e[1])
        return out

    def stream(self, x, mode):
        if x.op == 'app' and x.args[0] is mk('ext', 'open'):
            kw = dict(x.args[2])
            m = kw.get('mode')
            if m is None or m.op != 'const' or cval(m) not in mode:
                raise Bad('pickles through a file opened with mode %s' % (show(m) if m is not None else 'r'))
            return x.args[1][0]
        raise Undecided('pickle through %s' % show(x))

    def hook(self, I, f, args, kw, fr, s, node):
        q, recv, pos = callee(I, f, args)
        if self.extra is not None:
            r = self.extra(I, f, args, kw, fr, s, node, q, pos)
            if r is not None:
                return r
        name = f.args[0] if f.op == 'ext' else None
        fz = lambda x: I.freeze(x, s)
        if name == 'pickle.dump':
            p = self.stream(fz(args[1]), ('wb', 'bw', 'xb', 'w+b', 'wb+'))
            bad = unpicklable(fz(args[0]))
            if bad is not None:
                raise Bad('%s is pickled, which is bound to its graph' % pretty(bad))
            self.files[p] = I.lib.copy_value(I, args[0], s, True)
            return NONE
        if name == 'pickle.load':
            p = self.stream(fz(args[0]), ('rb', 'br'))
            if p not in self.files:
                raise Bad('reads %s, but %s was written' % (pretty(p), ' and '.join(pretty(x) for x in self.files)))
            return I.lib.copy_value(I, self.files[p], s, True)
        if name and name.startswith('pickle.'):
            raise Undecided(name)
        if name == 'tensorflow.Graph':
            self.n += 1
            return mk('new_graph', const(self.n))
        if name == 'tensorflow.Session':
            g = (args[1] if len(args) > 1 else kw.get('graph'))
            if g is None:
                raise Bad('a session without a graph')
            return mk('session', g)
        if name == 'tensorflow.train.Saver':
            return mk('saver')
        if name == 'tensorflow.train.import_meta_graph':
            p = args[0]
            for q_ in self.saved:
                if eq(p, cat(q_, const('.meta'))) is TRUE:
                    g = [c.args[0].args[0] for c in self.context(s) if c.op == 'app' and c.args[0].op == 'attr' and c.args[0].args[1] == 'as_default']
                    if not g:
                        raise Bad('the graph is imported into the default graph')
                    return mk('meta_saver', q_, g[-1])
            raise Bad('imports the graph from %s, but it was saved at %s' % (pretty(p), ' and '.join(map(pretty, self.saved))))
        if f.op == 'attr' and f.args[1] == 'save' and f.args[0].op == 'saver':
            self.saved[args[1]] = args[0]
            return args[1]
        if f.op == 'attr' and f.args[1] == 'restore' and f.args[0].op == 'meta_saver':
            if args[1] not in self.saved:
                raise Bad('restores %s, but %s was saved' % (pretty(args[1]), ' and '.join(map(pretty, self.saved))))
            if args[0].op != 'session' or args[0].args[0] is not f.args[0].args[1]:
                raise Bad('restores a session of another graph than the imported one')
            self.restored[args[0]] = self.saved[args[1]]
            return NONE
        if f.op == 'attr' and f.args[1] in ('get_tensor_by_name', 'get_operation_by_name'):
            x = args[0]
            known = TENSORS if 'tensor' in f.args[1] else OPS
            if x.op == 'attr' and x.args[1] == 'name' and x.args[0] in known.values():
                return mk('twin', f.args[0], x.args[0])
            if x.op == 'attr' and x.args[1] == 'name' and x.args[0] in list(OPS.values()) + list(TENSORS.values()):
                raise Bad('%s(%s)' % (f.args[1], pretty(x)))
            raise Undecided('%s(%s)' % (f.args[1], show(x)))
        if f.op == 'attr' and f.args[1] == 'run' and f.args[0].op == 'session':
            a = dict(zip(('fetches', 'feed_dict'), map(fz, args)))
            a.update({k: fz(v) for k, v in kw.items()})
            r = mk('run', f.args[0], a['fetches'], a.get('feed_dict') or fz(I.new_dict(s, ())))
            I.log(s, const('call'), mk('ext', 'run'), tup(r), mk('kw', ()), NONE)
            return r
        return None


def unpicklable(t):
    if isinstance(t, tuple):
        for x in t:
            r = unpicklable(x)
            if r is not None:
                return r
        return None
    if not isinstance(t, T):
        return None
    if t in TENSORS.values() or t in OPS.values() or t is GRAPH or t.op in ('session', 'new_graph'):
        return t
    if t.op == 'attr' and t.args[1] == 'name':
        return None
    return unpicklable(t.args)


def network(chk, it, s):
    D = lambda **kw: it.new_dict(s, tuple(('kv', const(k), v) for k, v in kw.items()))
    L = lambda xs: it.new_list(s, tuple(('el', x) for x in xs))
    t = TENSORS
    gi = it.call(chk.anchor(it, N + 'initializers:GlobalInitializer'), [OPS['init']], {}, None, s, None)
    mi = it.call(chk.anchor(it, N + 'initializers:MatrixInitializer'), [const('words'), t['indices'], t['values'], t['update']], {}, None, s, None)
    return it.call(chk.anchor(it, N + 'network:NeuralNetwork'),
                   [D(a=t['in_a'], b=t['in_b']), D(x=t['out_x'], y=t['out_y']),
                    D(x=t['gold_x'], learning_rate=t['gold_lr'], dropout_probability=t['gold_drop']), OPS['optimizer'], t['loss'], L([gi, mi])], {}, None, s, None)


FEAT = {'a': sym('feature_a'), 'b': sym('feature_b')}
GOLD = {'x': sym('label_x'), 'learning_rate': sym('lr'), 'dropout_probability': sym('dropout')}
VEC = [(sym('id%d' % i, 'int'), sym('vector%d' % i)) for i in range(2)]


def uses(it, s, m):
    """what the model computes: a prediction, a training step, an initialisation"""
    D = lambda d: it.new_dict(s, tuple(('kv', const(k), v) for k, v in d.items()))
    p = it.call_method(m, 'predict', [D(FEAT)], None, s, None)
    l = it.call_method(m, 'train', [D(FEAT), D(GOLD)], None, s, None)
    it.call_method(m, 'initialize', [], None, s, None, {'words': it.new_list(s, tuple(('el', tup(*x)) for x in VEC))})
    return tup(it.freeze(p, s), it.freeze(l, s))


def runs(s, st):
    return mk('frz', 'list', effect_segs(s.heap[LOG][1][len(st.heap[LOG][1]):], ('run',)))


def model(chk):
    it = chk.interp()
    st = it.start()
    w = World(it)
    M = chk.anchor(it, N + 'model:Model')
    A = N + 'model:Model.'
    rec = {}

    def thunk(s):
        nn = network(chk, it, s)
        m = it.call(it.get_attr(M, 'new', None, s), [nn, GRAPH], {}, None, s, None)
        n0 = len(s.heap[LOG][1])
        a = uses(it, s, m)
        log1 = mk('frz', 'list', effect_segs(it.freeze_segs(s.heap[LOG][1][n0:], s), ('run',)))
        it.call_method(m, 'save', [PATH], None, s, None)
        m2 = it.call(it.get_attr(M, 'load', None, s), [PATH], {}, None, s, None)
        n1 = len(s.heap[LOG][1])
        b = uses(it, s, m2)
        log2 = mk('frz', 'list', effect_segs(it.freeze_segs(s.heap[LOG][1][n1:], s), ('run',)))
        rec['sessions'] = sessions(log2)
        return tup(a, log1, b, log2)
    v, s, raises = it.run(thunk, st.copy())
    for r in raises:
        chk.never('saving and loading raise nothing', A + 'load', State({}, r.st.pc), '%s at %s' % (show(r.exc)[:80], r.where))
    if v is None:
        raise Bad('never completes')
    a, log1, b, log2 = [x[1] for x in v.args[0]]
    sess = mk('session', GRAPH)
    D = lambda d: mk('frz', 'dict', tuple(('kv', k, x) for k, x in d), kind='dict')
    t = TENSORS
    feed = [(t['in_a'], FEAT['a']), (t['in_b'], FEAT['b'])]
    gold = [(t['gold_x'], GOLD['x']), (t['gold_lr'], GOLD['learning_rate']), (t['gold_drop'], GOLD['dropout_probability'])]
    outs = D([(const('x'), t['out_x']), (const('y'), t['out_y'])])
    pred = mk('run', sess, outs, D(feed))
    chk.eq('a prediction fetches every output under its name and feeds every feature to its input', A + 'predict',
           item(a, ZERO), pred, s)
    step = None
    for x in lit_els(log1.args[1]):
        r = item(item(x, const(2)), ZERO)
        if r.op == 'run' and any(y is OPS['optimizer'] for y in subterms(r.args[1])):
            step = r
    if step is None:
        raise Bad('training does not run the optimiser')
    chk.eq('a training step feeds features and labels to the tensors of their names', A + 'train', step.args[2], D(feed + gold), s)
    chk.eq('a training step returns the loss of the optimising run', A + 'train', item(a, ONE), loss_of(step), s)
    inits = [item(item(x, const(2)), ZERO) for x in lit_els(log1.args[1])][-2:]
    L = lambda xs: mk('tup', tuple(('el', x) for x in xs), kind='tuple')
    want = [mk('run', sess, OPS['init'], D([])),
            mk('run', sess, t['update'], D([(t['indices'], L([x for x, _ in VEC])), (t['values'], L([x for _, x in VEC]))]))]
    chk.eq('initialisation initialises all variables, then stores each pre-trained vector at its id', A + 'initialize', tup(*inits), tup(*want), s)
    ss = rec['sessions']
    if len(ss) != 1:
        raise Bad('the loaded model uses %d sessions' % len(ss))
    s2 = list(ss)[0]
    chk.must('the loaded model runs in a session restored from the saved one', A + 'load', w.restored.get(s2) is sess,
             'it runs in %s, restored from %s' % (pretty(s2), pretty(w.restored[s2]) if s2 in w.restored else 'nothing'))
    m = {sess: s2}
    m.update({x: mk('twin', s2.args[0], x) for x in list(TENSORS.values()) + list(OPS.values())})
    for n, x, y in (('predictions', item(a, ZERO), item(b, ZERO)), ('training steps', item(a, ONE), item(b, ONE)), ('runs', log1, log2)):
        chk.eq('%s of the loaded model are those of the saved one' % n, A + 'load', y, subst_any(x, m), s)


def subterms(t):
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T):
            out.append(x)
            go(x.args)
    go(t)
    return out


def sessions(log):
    return {x for x in subterms(log) if x.op == 'session'}


def loss_of(step):
    i = [k for k, x in enumerate(lit_els(step.args[1].args[-1]) or ()) if x is TENSORS['loss']]
    if not i:
        raise Bad('the loss is not fetched by the training step')
    return item(step, const(i[0]))


FE, NET, INT = c10.FE, c10.NET, c10.INT


def tagger(chk, how):
    it, st, docs = c10.setup(chk, c10.neural_external)
    base = it.call_hook
    rec = {'closed': []}

    def extra(I, f, args, kw, fr, s, node, q, pos):
        if f.op == 'attr' and f.args[0] is NET and f.args[1] == 'save':
            rec['saved'] = args[0]
            return NONE
        if q == N + 'model:Model.load':
            if rec.get('saved') is None or eq(pos[-1], rec['saved']) is not TRUE:
                raise Bad('loads the model from %s, it was saved at %s' % (pretty(pos[-1]), pretty(rec['saved']) if 'saved' in rec else 'no place'))
            rec['loaded'] = True
            return mk('reloaded')
        if f.op == 'attr' and f.args[0].op == 'reloaded' and f.args[1] == 'close':
            rec['closed'].append(len(s.heap[LOG][1]))
            I.log(s, const('call'), mk('ext', 'close_model'), tup(), mk('kw', ()), NONE)
            return NONE
        if f.op in ('attr', 'meth'):
            o = erase(f.args[0])
            o = NET if o.op == 'reloaded' else o
            if o in (FE, NET, INT) and o is not f.args[0]:
                return c10.neural_external(I, mk('attr', o, f.args[1]), args, kw, fr, s, node)
            if o is NET and rec.get('loaded'):
                raise Bad('the loaded tagger uses the model of the saved one')
        return base(I, f, args, kw, fr, s, node)
    w = World(it, extra)
    c = chk.anchor(it, N + 'tagger.neural_tagger:NeuralTagger')
    A = N + 'tagger.neural_tagger:NeuralTagger.' + ('save' if how == 'lazy' else 'load')

    def got(s):
        o = it.call(c, [FE, NET, INT], {}, None, s, None)
        t = it.call_method(o, 'save', [PATH], None, s, None)
        if rec.get('loaded'):
            raise Bad('save loads the model')
        if how == 'load':
            t = it.call(it.get_attr(c, 'load', None, s), [PATH], {}, None, s, None)
        return c10.listed(it, it.call_method(t, 'tag', [docs], None, s, None), s)

    def want(s):
        i = fresh_bv()
        d = mk('obj', DOC, 'doc', i)
        toks = map_segs(it, s, sent_segs(d, lambda x: c10.ann_tokens(x)), lambda z, t: layers(it, z, t))
        r = it.new_list(s, (('gen', i, len_(docs), (('el', mk('newdoc', d, mk('frz', 'list', toks))),)),))
        if how == 'lazy':
            it.log(s, const('call'), mk('ext', 'close_model'), tup(), mk('kw', ()), NONE)
        return r
    exists = mk('app', mk('ext', 'os.path.exists'), (PATH,), (), kind='bool')
    for ex in (True, False):
        rec.clear()
        rec['closed'] = []
        w.files.clear()
        z = st.copy()
        z.assume(exists if ex else not_(exists))
        n = '%s, path %s' % (how, 'exists' if ex else 'is new')
        chk.same(n + ': the tagger loaded annotates as the one saved', A, it, z, got, want, effects=('close_model',))
        z = st.copy()
        z.assume(exists if ex else not_(exists))
        rec.clear()
        rec['closed'] = []
        _, s, _ = it.run(lambda y: it.call_method(it.call(c, [FE, NET, INT], {}, None, y, None), 'save', [PATH], None, y, None), z)
        mk_ = [g[1] for g in s.heap[LOG][1] if g[0] == 'el' and len(g[1].args[0]) > 1 and g[1].args[0][1][1] is mk('ext', 'os.makedirs')]
        if ex:
            ok = all(any(k == 'exist_ok' and v is TRUE for k, v in e.args[0][3][1].args[0]) for e in mk_)
            chk.must(n + ': an existing directory is accepted', A, ok, 'makedirs fails on the existing directory')
        else:
            chk.must(n + ': the directory is created', A, any(item(e.args[0][2][1], ZERO) is PATH for e in mk_), 'it is not')


def lazily(chk, fails):
    it, st, docs = c10.setup(chk, c10.neural_external)
    base = it.call_hook
    rec = {'n': 0}

    def extra(I, f, args, kw, fr, s, node, q, pos):
        if f.op == 'attr' and f.args[0] is NET and f.args[1] == 'save':
            return NONE
        if q == N + 'model:Model.load':
            I.log(s, const('call'), mk('ext', 'open_model'), tup(), mk('kw', ()), NONE)
            return mk('reloaded')
        if f.op == 'attr' and f.args[0].op == 'reloaded' and f.args[1] == 'close':
            I.log(s, const('call'), mk('ext', 'close_model'), tup(), mk('kw', ()), NONE)
            return NONE
        if f.op in ('attr', 'meth'):
            o = erase(f.args[0])
            o = NET if o.op == 'reloaded' else o
            if o is NET and f.args[1] == 'predict' and fails:
                I.do_raise(s, mk('exc', 'RuntimeError', ()), node, fr)
            if o in (FE, NET, INT) and o is not f.args[0]:
                return c10.neural_external(I, mk('attr', o, f.args[1]), args, kw, fr, s, node)
        return base(I, f, args, kw, fr, s, node)
    World(it, extra)
    A = N + 'tagger.neural_tagger:LazyNeuralTagger.tag'
    c = chk.anchor(it, N + 'tagger.neural_tagger:NeuralTagger')
    st.assume(mk('app', mk('ext', 'os.path.exists'), (PATH,), (), kind='bool'))
    o = it.call(c, [FE, NET, INT], {}, None, st, None)
    lazy = it.call_method(o, 'save', [PATH], None, st, None)
    two = it.new_list(st, tuple(('el', mk('obj', DOC, 'doc', const(i))) for i in range(2)))
    t = it.call_method(lazy, 'tag', [two], None, st, None)
    count = lambda z, n: sum(g[0] == 'el' and len(g[1].args[0]) > 1 and g[1].args[0][1][1] is mk('ext', n) for g in z.heap[LOG][1])
    done = lambda z: count(z, 'open_model') == count(z, 'close_model')
    name = 'the session of the lazily loaded tagger is closed'
    if fails:
        v, s, raises = it.run(lambda s: it.iter_segs(t, s, None, None), st.copy())
        for r in raises:
            chk.must(name + ', though tagging failed', A, done(r.st), 'it is not when tagging fails')
    else:
        for k in (1, 2):
            chk.stopped(name + ', though the consumer stops', A, it, t, k, st, done)


def check(chk):
    chk.group('stopped', N + 'tagger.neural_tagger:LazyNeuralTagger.tag', lazily, chk, False)
    chk.group('failed', N + 'tagger.neural_tagger:LazyNeuralTagger.tag', lazily, chk, True)
    chk.group('Model', N + 'model:Model.load', model, chk)
    chk.group('NeuralTagger', N + 'tagger.neural_tagger:NeuralTagger.load', tagger, chk, 'load')
    chk.group('LazyNeuralTagger', N + 'tagger.neural_tagger:LazyNeuralTagger.tag', tagger, chk, 'lazy')
