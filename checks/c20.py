"""Grid search: every combination once, each on its own copy of the base hyperparameters."""
from .base import *
from .docmodel import *

G = 'babylondigger.evaluation.grid_eval:'
EVL = 'babylondigger.evaluation.evaluation:'
RULE = ('for all values of the grid and of the base hyperparameters: the evaluation is run once, with one parameter set per '
        'combination of one choice per grid dimension; each set is the base with the chosen parameters replaced (nested ones '
        'inside their parent, siblings kept), and shares no mutable object with another set, the base or the grid; a parameter '
        'the base does not have, a dimension that varies several parameters and two dimensions that vary the same one are '
        'rejected with ValueError')
ASSUMPTIONS = ['0-3 grid dimensions of 1-3 choices are unrolled; parameter names are concrete, values symbolic']


def build(it, s, x):
    """python structure of symbols in the heap"""
    if isinstance(x, dict):
        return it.new_dict(s, tuple(('kv', const(k), build(it, s, v)) for k, v in x.items()))
    if isinstance(x, list):
        return it.new_list(s, tuple(('el', build(it, s, v)) for v in x))
    return x


def reach(it, s, t, out):
    """heap objects and symbolic values reachable from t"""
    o = it.obj(s, t) if isinstance(t, T) else None
    if isinstance(t, T) and t.op == 'ref':
        if t in out:
            return
        out.add(t)
        o = s.heap[t.args[0]]
        reach(it, s, o[1], out)
    elif isinstance(t, T):
        if t.op in ('const', 'copyof'):
            return
        if t.op == 'sym':
            if kind(t) == 'list':
                out.add(t)
            return
        reach(it, s, t.args, out)
    elif isinstance(t, dict):
        for x in t.values():
            reach(it, s, x, out)
    elif isinstance(t, tuple):
        for x in t:
            reach(it, s, x, out)


def v(name):
    """a plain parameter: a number, or a list (which must not be shared)"""
    return sym(name, 'list' if name[0] in 'xld' else 'int')


BASE = {'epochs': v('epochs'), 'net': {'lr': v('lr'), 'drop': v('drop'), 'deep': {'a': v('a'), 'b': v('b')}, 'kernels': [{'size': v('size')}]}, 'opt': v('opt'), 'aux': {'lr': v('lr2')}, 'tasks': [v('t0'), v('t1')]}
PARSED = mk('parsed')


def runner(it, rec, base, grid, settings):
    dests = {}

    def hook(I, f, args, kw, fr, s, node):
        q, recv, args = callee(I, f, args)
        name = f.args[0] if f.op == 'ext' else None
        if name == 'argparse.ArgumentParser':
            return mk('parser')
        if f.op == 'attr' and f.args[0].op == 'parser' and f.args[1] == 'add_argument':
            opt = cval(args[0])
            d = kw.get('dest')
            dests[cval(d) if d is not None else opt.lstrip('-').replace('-', '_')] = opt
            return NONE
        if f.op == 'attr' and f.args[0].op == 'parser' and f.args[1] == 'parse_args':
            return PARSED
        if name == 'json.load':
            x = I.freeze(args[0], s)
            if x.op == 'app' and x.args[0] is mk('ext', 'open') and x.args[1][0].op == 'attr' and x.args[1][0].args[0] is PARSED:
                opt = dests.get(x.args[1][0].args[1])
                r = {'--settings': settings, '--hyperparams': base, '--grid': grid}.get(opt)
                if r is None:
                    raise Undecided('json.load of option %s' % opt)
                r = build(I, s, r)
                rec.setdefault('sources', []).append(r)
                return r
            raise Undecided('json.load(%s)' % show(x))
        if q == EVL + 'main':
            a = args[0]
            got = {n: I.get_attr(a, n, fr, s) for n in ('settings', 'method', 'hyperparams', 'delete_after')}
            rec.setdefault('runs', []).append((got, s.copy()))
            I.log(s, const('call'), mk('ext', 'run'), tup(), mk('kw', ()), NONE)
            return NONE
        return None
    it.call_hook = hook
    return dests


def combos(chk, title, grid, want, base=BASE):
    it = chk.interp()
    st = it.start()
    main = chk.anchor(it, G + 'main')
    anchor = G + 'main'
    rec = {}
    settings = {'model_dir': sym('model_dir', 'str')}
    dests = runner(it, rec, base, grid, settings)
    val, s, raises = it.run(lambda z: it.call(main, [], {}, None, z, None), st.copy())
    if want is None:
        ks = {r.exc.args[0] for r in raises if r.exc.op == 'exc'}
        if val is not None:
            chk.never(title + ': rejected with ValueError', anchor, State({}, s.pc), 'not rejected')
        for g, z in rec.get('runs', ()):
            chk.never(title + ': nothing is run', anchor, State({}, z.pc), 'the evaluation is run')
        chk.must(title + ': the rejection is a ValueError', anchor, ks <= {'ValueError'}, 'raises %s' % sorted(ks))
        return
    for r in raises:
        chk.never(title + ': no exception', anchor, State({}, r.st.pc), '%s at %s' % (show(r.exc)[:80], r.where))
    if val is None:
        raise Bad('%s: never completes' % title)
    runs = rec.get('runs', [])
    if not chk.must(title + ': the evaluation is run once', anchor, len(runs) == 1, 'it is run %d times' % len(runs)):
        return
    got, z = runs[0]
    chk.must(title + ': method and settings are passed on', anchor,
             got['method'].op == 'attr' and dests.get(got['method'].args[1]) == '--method' and
             it.freeze(got['settings'], z) is it.freeze(build(it, z, settings), z), 'method is %s, settings %s' % (
                 show(got['method']), show(it.freeze(got['settings'], z))))
    cands = it.iter_segs(got['hyperparams'], z, None, None)
    els = [x[1] for x in cands if x[0] == 'el']
    if len(els) != len(cands):
        raise Undecided('the list of parameter sets has no known length')
    g = [erase(it.freeze(x, z)) for x in els]
    w = [erase(it.freeze(build(it, z, x), z)) for x in want]
    for x in list(g):
        for y in w:
            if alpha(x) is alpha(y):
                g.remove(x)
                w.remove(y)
                break
    chk.eq('%s: one parameter set per combination' % title, anchor, mk('frz', 'list', tuple(('el', x) for x in g)),
           mk('frz', 'list', tuple(('el', x) for x in w)), st)
    own = []
    for x in els:
        o = set()
        reach(it, z, x, o)
        own.append(o)
    src = set()
    for x in rec['sources']:
        reach(it, z, x, src)
    bad = []
    for i, o in enumerate(own):
        for j, p in enumerate(own[:i]):
            bad += [('sets %d and %d' % (j, i), x) for x in o & p]
        bad += [('set %d and the parsed input' % i, x) for x in o & src]
    chk.must('%s: parameter sets share no mutable value' % title, anchor, not bad, '%s share %s' % (
        bad[0][0], show(it.freeze(bad[0][1], z))) if bad else '')


def check(chk):
    M = G + 'main'
    x = [v('x%d' % i) for i in range(3)]
    y = [v('y%d' % i) for i in range(3)]
    z = [v('z%d' % i) for i in range(2)]
    N = lambda lr, drop, a=BASE['net']['deep']['a'], b=BASE['net']['deep']['b'], k=BASE['net']['kernels']: {'lr': lr, 'drop': drop, 'deep': {'a': a, 'b': b}, 'kernels': k}
    lr, drop = v('lr'), v('drop')
    E = lambda epochs=BASE['epochs'], net=BASE['net'], opt=BASE['opt'], tasks=BASE['tasks'], aux=BASE['aux']: {'epochs': epochs, 'net': net, 'opt': opt, 'aux': aux, 'tasks': tasks}
    cases = [
        ('no dimension', {}, [E()]),
        ('one dimension', {'d': [{'epochs': a} for a in x]}, [E(epochs=a) for a in x]),
        ('one nested dimension', {'d': [{'net': {'lr': a}} for a in x]}, [E(net=N(a, drop)) for a in x]),
        ('two dimensions of one parent', {'d': [{'net': {'lr': a}} for a in x], 'e': [{'net': {'drop': b}} for b in y]},
         [E(net=N(a, b)) for a in x for b in y]),
        ('three dimensions', {'d': [{'net': {'deep': {'a': a}}} for a in x[:2]], 'e': [{'net': {'deep': {'b': b}}} for b in y], 'f': [{'opt': c} for c in z]},
         [E(net=N(lr, drop, a, b), opt=c) for a in x[:2] for b in y for c in z]),
        ('lists as choices', {'d': [{'tasks': [a]} for a in x[:2]], 'e': [{'net': {'kernels': [{'size': b}, b]}} for b in y]},
         [E(tasks=[a], net=N(lr, drop, k=[{'size': b}, b])) for a in x[:2] for b in y]),
        ('a dictionary for a plain parameter', {'d': [{'opt': {'k': a}} for a in x[:2]]}, [E(opt={'k': a}) for a in x[:2]]),
        ('a plain value for a dictionary', {'d': [{'net': a} for a in x[:2]]}, [E(net=a) for a in x[:2]]),
        ('parameters of the same name in two parents', {'d': [{'net': {'lr': a}} for a in x[:2]], 'e': [{'aux': {'lr': b}} for b in y]},
         [E(net=N(a, drop), aux={'lr': b}) for a in x[:2] for b in y]),
        ('an unknown parameter', {'d': [{'nope': a} for a in x[:2]]}, None),
        ('an unknown nested parameter', {'d': [{'net': {'nope': a}} for a in x[:2]]}, None),
        ('an unknown parameter in the second dimension', {'d': [{'epochs': a} for a in x[:2]], 'e': [{'net': {'deep': {'c': y[0]}}}]}, None),
        ('a dimension with two parameters', {'d': [{'epochs': x[0]}, {'opt': x[1]}]}, None),
        ('a dimension with two nested parameters', {'e': [{'opt': y[0]}], 'd': [{'net': {'lr': x[0]}}, {'net': {'drop': x[1]}}]}, None),
        ('a dimension with two parameters, one of them varied by another', {'d': [{'epochs': x[0]}, {'opt': x[1]}], 'e': [{'opt': y[0]}]}, None),
        ('a dimension with a parameter at two depths', {'d': [{'net': {'lr': x[0]}}, {'aux': {'lr': x[1]}}]}, None),
        ('two dimensions with the same parameter', {'d': [{'epochs': a} for a in x[:2]], 'e': [{'epochs': b} for b in y]}, None),
        ('two dimensions with the same nested parameter', {'d': [{'net': {'lr': a}} for a in x[:2]], 'f': [{'opt': z[0]}], 'e': [{'net': {'lr': b}} for b in y]}, None),
    ]
    for title, grid, want in cases:
        chk.group(title, M, combos, chk, title, grid, want)
