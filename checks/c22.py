"""The metrics of the evaluation."""
import itertools
from .base import *
from .docmodel import *
from .files import *
from engine.lib import WHITE
from engine import valuate

EV_ = 'babylondigger.evaluation.conll17_ud_eval:'
A = EV_ + 'evaluate'
L = EV_ + 'load_conllu'
RULE = ('for every pair of treebanks of the enumerated shapes (tokenisations, multiword tokens, sentences, trees), lemmas, tags, features and '
        'relations being symbolic: precision, recall, F1 and aligned accuracy of every metric equal those of a reference that aligns words '
        'by spans and, inside of multiword spans, by the longest common subsequence of their forms; malformed files are refused with UDError')
ASSUMPTIONS = ['shapes of up to 6 words in up to 3 sentences; forms are concrete texts', 'numbers are exact',
               'where several longest common subsequences exist, which of them is taken is not considered',
               'identifiers and heads inside of multiword tokens are well formed']

SPEC = FILE + '''
class Arguments(object):
    def __init__(self, gold, system, weights):
        self.gold_file = gold
        self.system_file = system
        self.weights = weights
        self.verbose = 0
def total(weights):
    r = 0
    for w in weights:
        r += w
    return r

def score(gold, system, correct, aligned):
    return (correct / system if system else 0.0, correct / gold if gold else 0.0,
            2 * correct / (system + gold) if system + gold else 0.0, correct / aligned if aligned else aligned)

def relation(deprel):
    return deprel.split(':')[0]

def weight_of(weights, word):
    return weights.get(relation(word[4]), 1.0)

def metric(gold, system, pairs, same, weight):
    correct = total([weight(g) for g, s, x in pairs if same(g, s, x)])
    return score(total([weight(g) for g in gold]), total([weight(s) for s in system]), correct, total([weight(g) for g, s, x in pairs]))

def one(word):
    return 1

def reference(gold, system, pairs, tokens, sentences, weights):
    clas = {'aux': 0.0, 'case': 0.0, 'cc': 0.0, 'clf': 0.0, 'cop': 0.0, 'det': 0.0, 'mark': 0.0, 'punct': 0.0}
    def las(g, s, x):
        return x and relation(g[4]) == relation(s[4])
    rows = [score(tokens[0], tokens[1], tokens[2], None),
            score(sentences[0], sentences[1], sentences[2], None),
            score(len(gold), len(system), len(pairs), None),
            metric(gold, system, pairs, lambda g, s, x: g[1] == s[1], one),
            metric(gold, system, pairs, lambda g, s, x: g[2] == s[2], one),
            metric(gold, system, pairs, lambda g, s, x: g[3] == s[3], one),
            metric(gold, system, pairs, lambda g, s, x: g[1] == s[1] and g[2] == s[2] and g[3] == s[3], one),
            metric(gold, system, pairs, lambda g, s, x: g[0] == s[0], one),
            metric(gold, system, pairs, lambda g, s, x: x, one),
            metric(gold, system, pairs, las, one),
            metric(gold, system, pairs, las, lambda w: weight_of(clas, w)),
            None if weights is None else metric(gold, system, pairs, las, lambda w: weight_of(weights, w))]
    return tuple(rows)
'''
CELL = '\t\r\n'
NAMES = ('Tokens', 'Sentences', 'Words', 'UPOS', 'XPOS', 'Feats', 'AllTags', 'Lemmas', 'UAS', 'LAS', 'CLAS')


class Bank(object):
    """a treebank 'a bc(b c) / d', its heads, and its lines"""

    def __init__(self, name, shape, heads='first', end='\n', noise=False):
        self.name = name
        self.words, self.tokens, self.sentences, self.lines = [], [], [], []
        at = 0
        for k, sent in enumerate(shape.split('/')):
            first, begin = len(self.words), at
            toks = [t for t in sent.split()]
            n = sum(len(t.split('(')[1].rstrip(')').split('+')) if '(' in t else 1 for t in toks)
            i = 0
            if noise:
                self.lines += [cat(const('# '), sym('%s_comment%d' % (name, k), 'str', excl=CELL), const(end))]
            for t in toks:
                form, parts = (t[:-1].split('(') + [None])[:2] if '(' in t else (t, None)
                span = (at, at + len(form))
                at += len(form)
                self.tokens.append(span)
                if parts is not None:
                    parts = parts.split('+')
                    self.line('%d-%d' % (i + 1, i + len(parts)), form, [const('_')] * 4, '_', const('_'), end)
                for f in parts or [form]:
                    i += 1
                    head = self.head(heads, i, n, k)
                    w = len(self.words)
                    cells = [sym('%s_%s%d' % (name, c, w), 'str', excl=CELL) for c in ('lemma', 'upos', 'xpos', 'feats')]
                    dep = sym('%s_deprel%d' % (name, w), 'str', excl=CELL + ':')
                    for x in cells:
                        valuate.POOL[x] = ('x', 'y', 'X')
                    valuate.POOL[dep] = ('punct', 'nsubj', 'obj', 'nsubj', 'punct', 'aux', 'case', 'cc', 'clf', 'cop', 'det', 'mark')
                    if w % 3 == 2:
                        dep = cat(dep, const(':'), sym('%s_subtype%d' % (name, w), 'str', excl=CELL + ':'))
                    self.line(str(i), f if not (noise and parts is None and len(f) > 1) else f[0] + ' ' + f[1:], cells, str(head), dep, end)
                    self.words.append((f, span, parts is not None, first + head - 1 if head else None, cells + [dep]))
                    if noise and i == 1 and parts is None:
                        self.line('1.1', 'empty', [const('_')] * 4, '_', const('_'), end)
            self.lines.append(const(end))
            self.sentences.append((begin, at))
            if noise and parts is not None:
                self.lines += [const('#' + end)]
        self.text = ''.join(f for f in shape.replace('/', ' ').split() for f in [f.split('(')[0]])

    def head(self, heads, i, n, k):
        if isinstance(heads, (list, tuple)):
            return heads[k][i - 1]
        return {'first': int(i > 1), 'chain': i - 1, 'back': i + 1 if i < n else 0, 'last': n if i < n else 0}[heads]

    def line(self, id, form, cells, head, dep, end):
        parts = []
        for c in [const(id), const(form)] + cells + [const(head), dep, const('_'), const('_')]:
            parts += [c, const('\t')]
        self.lines.append(cat(*(parts[:-1] + [const(end)])))


def components(spans):
    out = []
    for a, b in sorted(spans):
        if out and a < out[-1][1]:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def lcs(xs, ys):
    """all longest common subsequences, as sets of pairs"""
    memo = {}

    def best(i, j):
        if i == len(xs) or j == len(ys):
            return (0, {()})
        if (i, j) not in memo:
            opts = [best(i + 1, j), best(i, j + 1)]
            if xs[i] == ys[j]:
                n, s = best(i + 1, j + 1)
                opts.append((n + 1, {((i, j),) + x for x in s}))
            m = max(n for n, _ in opts)
            memo[i, j] = (m, set().union(*[s for n, s in opts if n == m]))
        return memo[i, j]
    return best(0, 0)[1]


def align(gold, system):
    """pairs of aligned words, or None if that is ambiguous"""
    pairs = []
    parts = components([w[1] for b in (gold, system) for w in b.words if w[2]])
    inside = lambda w, c: c[0] <= w[1][0] and w[1][1] <= c[1]
    for c in parts:
        gs = [i for i, w in enumerate(gold.words) if inside(w, c)]
        ss = [i for i, w in enumerate(system.words) if inside(w, c)]
        found = lcs([gold.words[i][0].lower() for i in gs], [system.words[i][0].lower() for i in ss])
        if len(found) != 1:
            return None
        pairs += [(gs[i], ss[j]) for i, j in next(iter(found))]
    at = {w[1]: i for i, w in enumerate(gold.words) if not any(inside(w, c) for c in parts)}
    for j, w in enumerate(system.words):
        if not any(inside(w, c) for c in parts) and w[1] in at:
            pairs.append((at[w[1]], j))
    return sorted(pairs)


def scores(I, r, s):
    """{metric: (precision, recall, f1, aligned accuracy)} of a result"""
    out = []
    for k in NAMES + ('WeightedLAS',):
        x = I.call_method(r, 'get', [const(k)], None, s, None)
        if x is NONE:
            out.append(NONE)
        else:
            out.append(tup(*[I.get_attr(x, a, None, s) for a in ('precision', 'recall', 'f1', 'aligned_accuracy')]))
    return tup(*out)


def pair(chk, it, name, gold, system, weights=False):
    pairs = align(gold, system)
    if pairs is None:
        chk.count('ambiguous alignments left out')
        return
    st = it.start()
    it.call_hook = file_hook({})
    to = dict((j, i) for i, j in pairs)
    same = lambda i, j: (gold.words[i][3] is None if system.words[j][3] is None else to.get(system.words[j][3], -1) == gold.words[i][3])
    cells = lambda b, i: tup(*b.words[i][4])
    count = lambda f: tup(const(len(f(gold))), const(len(f(system))), const(len(set(f(gold)) & set(f(system)))))

    def given(s):
        if not weights:
            return NONE
        return it.freeze(it.call(it.glob('builtins:dict') or mk('ext', 'dict'), [tup(tup(const('nsubj'), sym('w1', 'float')), tup(const('obj'), const(0.5)))], {}, None, s, None), s)

    def got(s):
        g, y = [it.call(it.glob(L), [read_file(it, s, b.lines, None, None)], {}, None, s, None) for b in (gold, system)]
        return scores(it, it.call(it.glob(A), [g, y] + ([given(s)] if weights else []), {}, None, s, None), s)

    def want(s):
        return it.call(it.glob('spec:reference'), [
            tup(*[cells(gold, i) for i in range(len(gold.words))]), tup(*[cells(system, i) for i in range(len(system.words))]),
            tup(*[tup(cells(gold, i), cells(system, j), const(same(i, j))) for i, j in pairs]),
            count(lambda b: b.tokens), count(lambda b: b.sentences), given(s)], {}, None, s, None)
    chk.same(name, A, it, st, got, want)


SHAPES = ['a b c', 'ab c', 'a bc', 'abc', 'ab(a+b) c', 'a bc(b+c)', 'abc(a+b+c)', 'abc(x+b+y)', 'ab(a+b+c) c', 'ab(A+x) c(c)', 'abc(abc)', 'a b / c', 'a / bc(b+c)']
LONGER = [
    ('abcd', 'a b c d'), ('abc d', 'a b c d'), ('a bc d', 'a b c d'), ('a bc(b+c) d', 'a b cd'), ('abcd(a+b+c+d)', 'ab(a+b) cd(c+d)'),
    ('abc(a+b+c) de(d+e)', 'a bcd(b+c+d) e'), ('abc(a+Bx+c) def(d+Ex+f)', 'ab(a+b) cd(c+d) ef(e+f)'), ('ab(a+b) cd(bc+d)', 'a bc d'),
    ('a bc(b+c) d', 'ab c d'), ('a b / c d', 'a b c d'), ('a b / c d', 'a / b c / d'), ('ab / cd(c+d)', 'a b / cd'), ('Ab(A+B) c', 'Ab(a+b) c'),
    ('abc(a+c) d e', 'a bcd(b+d) e'), ('a bcd e', 'ab(a+b) c de(d+e)'), ('ab(b+a) c', 'ab(a+b+c) c'), ('a b c d e', 'a b c d e'),
]

# the tool skips no more than one word that begins before a multiword token: only pairs where that makes no difference
ONE_WAY = [('aa a(a+x)', 'a(x) aa(a)'), ('bb b', 'b(b) bb(x+b)'), ('b c(x+c+c)', 'bc(c+b+x)'), ('a a a', 'aa a(a)')]

TREES = [('first', 'first'), ('chain', 'chain'), ('first', 'chain'), ('back', 'last'), ('last', 'last')]


def row(id, form, head='0', deprel='root', n=10):
    return '\t'.join(([str(id), form, '_', '_', '_', '_', str(head), deprel] + ['_'] * 9)[:n]) + '\n'


GOOD = [
    ('one word', [row(1, 'a'), '\n']), ('nothing', []), ('comments and empty nodes', ['# x\n', row(1, 'a'), row('1.1', 'b', '_'), '\n', '#\n']),
    ('a deep tree', [row(1, 'a', 2), row(2, 'b', 3), row(3, 'c', 0), '\n']), ('spaces in a form', [row(1, 'a b'), '\n']),
    ('a multiword token', [row('1-2', 'ab', '_'), row(1, 'a', 0), row(2, 'b', 1), '\n']),
    ('two sentences', [row(1, 'a'), '\n', '# y\n', row(1, 'b', 2), row(2, 'c', 0), '\n']),
    ('a form that looks like a comment', [row(1, 'a'), row(2, '#', 1), '\n']),
]
BAD = [
    ('a cycle of two', [row(1, 'a', 2), row(2, 'b', 1), '\n']),
    ('a word that is its own head', [row(1, 'a'), row(2, 'b', 2), '\n']),
    ('a cycle beside the root', [row(1, 'a'), row(2, 'b', 3), row(3, 'c', 4), row(4, 'd', 2), '\n']),
    ('a cycle in a multiword token', [row('1-2', 'ab', '_'), row(1, 'a', 2), row(2, 'b', 1), '\n']),
    ('a head outside', [row(1, 'a'), row(2, 'b', 3), '\n']),
    ('a head in the sentence before', [row(1, 'a'), '\n', row(1, 'a', 2), '\n']),
    ('a head outside from a multiword token', [row('1-2', 'ab', '_'), row(1, 'a', 0), row(2, 'b', 4), '\n']),
    ('two roots', [row(1, 'a'), row(2, 'b', 0), '\n']),
    ('two roots in the second sentence', [row(1, 'a'), '\n', row(1, 'a'), row(2, 'b', 0), '\n']),
    ('an identifier that is skipped', [row(1, 'a'), row(3, 'b', 1), '\n']),
    ('an identifier that is repeated', [row(1, 'a'), row(1, 'b', 1), '\n']),
    ('identifiers that go on in the next sentence', [row(1, 'a'), '\n', row(2, 'a'), '\n']),
    ('identifiers from zero', [row(0, 'a'), '\n']),
    ('an identifier that is no number', [row('x', 'a'), '\n']),
    ('a range that is none', [row('1-x', 'ab', '_'), row(1, 'a'), '\n']),
    ('a range of three', [row('1-2-3', 'ab', '_'), row(1, 'a'), '\n']),
    ('a head that is no number', [row(1, 'a', '_'), '\n']),
    ('a negative head', [row(1, 'a'), row(2, 'b', -1), '\n']),
    ('nine columns', [row(1, 'a', n=9), '\n']), ('eleven columns', [row(1, 'a', n=11), '\n']),
    ('spaces for tabs', [row(1, 'a').replace('\t', ' '), '\n']),
    ('nine columns in a multiword token', [row('1-2', 'ab', '_'), row(1, 'a'), row(2, 'b', 1, n=9), '\n']),
    ('a sentence that is not ended', [row(1, 'a')]), ('a second sentence that is not ended', [row(1, 'a'), '\n', row(1, 'a')]),
    ('a multiword token that is not ended', [row('1-2', 'ab', '_'), row(1, 'a')]),
    ('a sentence that ends in a multiword token', [row('1-2', 'ab', '_'), row(1, 'a'), '\n', row(1, 'a'), '\n']),
    ('an empty form', [row(1, ''), '\n']), ('a blank form', [row(1, '  '), '\n']),
    ('a comment inside of a sentence', [row(1, 'a'), '# x\n', row(2, 'b', 1), '\n']),
    ('an empty line too much', [row(1, 'a'), '\n', '\n']),
]
DIFFERENT = [('a b', 'a c'), ('a b', 'a'), ('a', 'a b'), ('ab(a+b)', 'ac(a+b)'), ('a', 'A')]


def ud(r):
    e = r.st.heap[r.exc.args[0]][2] if r.exc.op == 'ref' else r.exc
    return e.op in ('exc', 'cls') and str(e.args[0]).split(':')[-1].split('#')[0] == 'UDError'


def loads(chk, it, name, lines, good):
    it.call_hook = file_hook({})
    v, s, raises = it.run(lambda z: it.call(it.glob(L), [read_file(it, z, [const(x) for x in lines], None, None)], {}, None, z, None), it.start())
    if good:
        chk.must('accepted: ' + name, L, v is not None and not raises, 'ends with %s' % sorted(set(show(r.exc)[:80] for r in raises)))
    else:
        chk.must('refused: ' + name, L, v is None and all(ud(r) for r in raises),
                 'is accepted' if v is not None else 'ends with %s' % sorted(set(show(r.exc)[:80] for r in raises)))


def different(chk, it, x, y):
    it.call_hook = file_hook({})
    banks = [Bank('g', x), Bank('s', y)]

    def go(s):
        g, y = [it.call(it.glob(L), [read_file(it, s, b.lines, None, None)], {}, None, s, None) for b in banks]
        return it.call(it.glob(A), [g, y], {}, None, s, None)
    v, s, raises = it.run(go, it.start())
    chk.must('other characters are refused: %s for %s' % (y, x), A, v is None and bool(raises) and all(ud(r) for r in raises),
             'scores are given' if v is not None else 'ends with %s' % sorted(set(show(r.exc)[:80] for r in raises)))


def weights(chk, it):
    W = EV_ + 'load_deprel_weights'
    chk.anchor(it, W)
    it.call_hook = file_hook({})
    ex = '#' + WHITE
    names = [sym('relation%d' % i, 'str', excl=ex, nonempty=True) for i in range(3)]
    # two of them are different
    values = ['0.5', '1', '0.25']
    lines = [cat(const('# '), sym('comment', 'str', excl=CELL), const('\n')), cat(names[0], const('\t0.5\n')), const('\n'), const('#nsubj 1\n'),
             cat(names[1], const('  1 \r\n')), const('  \n'), cat(names[2], const(' 0.25'))]
    st = it.start()
    for i, j in ((0, 1), (0, 2), (1, 2)):
        st.assume(not_(eq(names[i], names[j])))

    def got(s):
        r = it.call(it.glob(W), [read_file(it, s, lines, None, None)], {}, None, s, None)
        return tup(*[it.call_method(r, 'get', [n], None, s, None) for n in names + [const('#'), const('')]])
    chk.same('weights', W, it, st, got, lambda s: tup(*([const(float(v)) for v in values] + [NONE, NONE])))
    v, s, raises = it.run(lambda z: it.call(it.glob(W), [NONE], {}, None, z, None), it.start())
    chk.must('no weights', W, v is NONE, 'is %s' % (v is not None and show(v)))
    for bad in ('nsubj\n', 'nsubj 1 2\n', 'nsubj 0.5 # x\n'):
        v, s, raises = it.run(lambda z: it.call(it.glob(W), [read_file(it, z, [const(bad)], None, None)], {}, None, z, None), it.start())
        chk.must('weights refused: %r' % bad, W, v is None and bool(raises) and all(r.exc.op == 'exc' and r.exc.args[0] == 'ValueError' for r in raises),
                 'they are read')


def command(chk, it):
    """the command line evaluates the files it is given"""
    W = EV_ + 'evaluate_wrapper'
    chk.anchor(it, W)
    banks = [Bank('g', 'a b', 'first'), Bank('s', 'a b', 'back')]
    paths = [sym('gold', 'str', nonempty=True), sym('system', 'str', nonempty=True)]
    st = it.start()
    st.assume(not_(eq(*paths)))
    it.call_hook = file_hook(dict(zip(paths, [b.lines for b in banks])))
    for lines in (None, [const('nsubj 0.5\n')]):
        def got(s):
            ws = NONE if lines is None else read_file(it, s, lines, None, None)
            args = it.call(it.glob('spec:Arguments'), [paths[0], paths[1], ws], {}, None, s, None)
            return scores(it, it.call(it.glob(W), [args], {}, None, s, None), s)

        def want(s):
            g, y = [it.call(it.glob(L), [read_file(it, s, b.lines, None, None)], {}, None, s, None) for b in banks]
            ws = NONE if lines is None else it.call(mk('ext', 'dict'), [tup(tup(const('nsubj'), const(0.5)))], {}, None, s, None)
            return scores(it, it.call(it.glob(A), [g, y, ws], {}, None, s, None), s)
        chk.same('command line%s' % ('' if lines is None else ', with weights'), W, it, st, got, want)


def check(chk):
    it = chk.interp()
    it.define(SPEC)
    chk.anchor(it, A)
    chk.anchor(it, L)
    k = 0
    for x, y in list(itertools.product(SHAPES, SHAPES)) + LONGER + [(y, x) for x, y in LONGER] + ONE_WAY:
        k += 1
        hg, hs = TREES[k % len(TREES)]
        name = '%s against %s, heads %s, %s' % (y, x, hs, hg)
        chk.group(name, A, pair, chk, it, name, Bank('g', x, hg), Bank('s', y, hs), k % 3 == 0)
    for x, y in (('ab c', 'ab c'), ('a / bc(b+c)', 'a bc'), ('ab(a+b) cd', 'a b cd')):
        for end in ('\n', '\r\n'):
            name = '%s against %s, with comments and empty nodes, ends %r' % (y, x, end)
            chk.group(name, A, pair, chk, it, name, Bank('g', x, 'first', end, True), Bank('s', y, 'chain', '\n', True), True)
    for name, lines in GOOD:
        chk.group(name, L, loads, chk, it, name, lines, True)
    for name, lines in BAD:
        chk.group(name, L, loads, chk, it, name, lines, False)
    for x, y in DIFFERENT:
        chk.group('characters', A, different, chk, it, x, y)
    chk.group('weights', A, weights, chk, it)
    chk.group('command', A, command, chk, it)
