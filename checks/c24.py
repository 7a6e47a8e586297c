"""Data sets: every pass yields every document once; shuffling is local, reproducible and new for every pass."""
import itertools
from .base import *
from .docmodel import *

D = 'babylondigger.evaluation.dataset:'
RULE = ('for every seed, maximal group size 1-4, data set of 0-5 documents and outcome of the random choices: a pass over the '
        'shuffled data set yields consecutive groups of at least half and at most the maximal size (the last one may be smaller), '
        'each group a permutation of its documents; the random source is derived from the seed alone and differs between passes; '
        'a pass over a file data set reads the file anew')
ASSUMPTIONS = ['data sets of 0-5 documents and group sizes of 1-4 are unrolled', 'Random.shuffle permutes its argument']


class Rng(object):
    """random.Random as an uninterpreted source: draws from wide ranges are symbols, from narrow ones all values in turn"""

    def __init__(self, it, script):
        self.it, self.script, self.n, self.asked = it, list(script), {}, []
        it.call_hook = self.hook

    def hook(self, I, f, args, kw, fr, s, node):
        q, recv, args = callee(I, f, args)
        if f.op == 'ext' and f.args[0] in ('random.Random', 'Random'):
            return mk('rng', I.freeze(args[0], s) if args else mk('rng_time'))
        if f.op == 'ext' and f.args[0].startswith('random.'):
            raise Bad('uses the global random generator (%s)' % f.args[0])
        if f.op == 'ext' and f.args[0] == 'time.time':
            raise Bad('the order depends on the time although a seed is given')
        if f.op == 'attr' and f.args[0].op == 'rng':
            g, name = f.args
            k = self.n[g] = self.n.get(g, 0) + 1
            if name in ('randrange', 'randint'):
                lo, hi = (ZERO, args[0]) if len(args) == 1 else args
                if name == 'randint':
                    hi = add(hi, ONE)
                lo, hi = s.simp(lo), s.simp(hi)
                if lo.op == hi.op == 'const' and cval(hi) - cval(lo) <= 16:
                    if cval(hi) <= cval(lo):
                        raise Bad('draws from an empty range')
                    c = self.script.pop(0) if self.script else 0
                    self.asked.append(cval(hi) - cval(lo))
                    return const(cval(lo) + c % (cval(hi) - cval(lo)))
                return mk('draw', g, k, lo, hi, kind='int')
            if name in ('getrandbits', 'random'):
                return mk('draw', g, k, ZERO, ZERO, kind='int')
            if name == 'shuffle':
                o = I.obj(s, args[0])
                els = lit_els(o[1]) if o is not None and o[0] == 'list' else None
                if els is None:
                    raise Undecided('shuffles a list of unknown length')
                src = tup(*els)
                I.list_set(s, args[0], tuple(('el', mk('perm', g, k, src, const(i))) for i in range(len(els))))
                return NONE
            raise Undecided('Random.%s' % name)
        return None


def shuffled(chk, n, size, script):
    it = chk.interp()
    st = it.start()
    c = chk.anchor(it, D + 'ShuffledDataset')
    anchor = D + 'ShuffledDataset.__iter__'
    seed = sym('seed', 'int')
    docs = [mk('obj', DOC, 'd%d' % i) for i in range(n)]
    rng = Rng(it, script)
    install_docs(it)

    def thunk(s):
        ds = it.new_list(s, tuple(('el', d) for d in docs))
        o = it.call(c, [ds, seed, const(size)], {}, None, s, None)
        out = []
        for i in range(2):
            r = it.call(mk('ext', 'list'), [o], {}, None, s, None)
            out.append(it.freeze(r, s))
        return tup(*out)
    v, s, raises = it.run(thunk, st.copy())
    name = '%d documents, groups of at most %d, choices %s' % (n, size, list(script))
    for r in raises:
        chk.never(name + ': no exception', anchor, State({}, r.st.pc), '%s at %s' % (show(r.exc)[:80], r.where))
    if v is None:
        raise Bad('never completes')
    rngs = []
    for p, x in enumerate(lit_els(v.args[0])):
        els = lit_els(x.args[-1])
        if els is None:
            raise Undecided('output of unknown length')
        why = groups(els, docs, size, rngs, p, seed)
        chk.must('%s, pass %d: consecutive groups, permuted' % (name, p + 1), anchor, why is None, why)
    if n:
        chk.must(name + ': every pass draws its own order', anchor, len(rngs) == 2 and rngs[0] is not rngs[1],
                 'both passes use %s' % pretty(rngs[0]) if rngs else '')
    return rng.asked


def groups(els, docs, size, rngs, p, seed):
    """None if els is docs split into consecutive permuted groups of the right sizes, else what is wrong"""
    i, out = 0, []
    while i < len(els):
        e = els[i]
        if e.op != 'perm':
            return 'document %s is not shuffled' % pretty(e)
        g, k, src, _ = e.args
        m = len(src.args[0])
        grp = els[i:i + m]
        if sorted(cval(x.args[3]) if x.op == 'perm' and x.args[:3] == e.args[:3] else -1 for x in grp) != list(range(m)):
            return 'a group is not kept whole'
        out.append([x[1] for x in src.args[0]])
        if i == 0:
            rngs.append(mk('use', g, k))
        if not only_seed(g, seed):
            return 'the random source is %s' % pretty(g)
        i += m
    flat = [d for b in out for d in b]
    if flat != docs:
        lost, twice = [d for d in docs if d not in flat], [d for d in docs if flat.count(d) > 1]
        return ('loses %s' % pretty(lost[0]) if lost else 'repeats %s' % pretty(twice[0]) if twice else 'reorders across groups') + \
            ' of %d documents' % len(docs)
    for j, b in enumerate(out):
        if len(b) > size:
            return 'a group of %d documents, at most %d are allowed' % (len(b), size)
        if len(b) < size // 2 + 1 and len(b) < size and j + 1 < len(out):
            return 'a group of %d documents in the middle, less than half of %d' % (len(b), size)
    return None


def only_seed(g, seed):
    """a source seeded by the seed, or by a draw from such a source"""
    x = g.args[0]
    while x.op == 'draw':
        x = x.args[0].args[0]
    return contains_sym(x, seed) and not has_time(x)


def contains_sym(x, s):
    if isinstance(x, tuple):
        return any(contains_sym(y, s) for y in x)
    return isinstance(x, T) and (x is s or contains_sym(x.args, s))


def has_time(x):
    if isinstance(x, tuple):
        return any(has_time(y) for y in x)
    return isinstance(x, T) and (x.op in ('rng_time', 'app') or has_time(x.args))


def file_data(chk):
    it = chk.interp()
    st = it.start()
    c = chk.anchor(it, D + 'CoNLLUDataSet')
    path, reader = sym('path', 'str'), sym('reader')
    calls = []

    def hook(I, f, args, kw, fr, s, node):
        if f.op == 'attr' and f.args[0] is reader and f.args[1] == 'read_from_file':
            calls.append((args, kw))
            return mk('read', const(len(calls)), kind='list')
        return None
    it.call_hook = hook

    def thunk(s):
        o = it.call(c, [path, reader], {}, None, s, None)
        return tup(*[it.freeze(it.call(mk('ext', 'list'), [o], {}, None, s, None), s) for _ in range(2)])
    v, s, raises = it.run(thunk, st)
    A = D + 'CoNLLUDataSet.__iter__'
    chk.must('every pass reads the file named', A, v is not None and not raises and len(calls) == 2 and
             all(a == [path] and not k for a, k in calls), 'reads %s' % [[show(x) for x in a] for a, _ in calls])
    if v is not None:
        w = tup(*[mk('frz', 'list', (('spl', mk('read', const(i), kind='list')),)) for i in (1, 2)])
        chk.eq('a pass yields what it read', A, v, w, s)


def check(chk):
    A = D + 'ShuffledDataset.__iter__'
    for size in range(1, 5):
        choices = size - size // 2
        for n in range(0, 6):
            for script in itertools.product(range(choices), repeat=min(n, 3)):
                chk.group('shuffled', A, shuffled, chk, n, size, script)
    chk.group('file', D + 'CoNLLUDataSet.__iter__', file_data, chk)
