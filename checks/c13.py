"""Suffix rules: deriving one from a word and its lemma, applying it, and looking up the applicable ones."""
from itertools import product

from .base import *
from .c03 import leaves, order_laws
from engine.lib import compare

L = 'babylondigger.lemmas.transformation_rules:'
X = 'babylondigger.features.extractors:'
RULE = ('for every word and lemma: the derived rule keeps exactly their longest common beginning, and is an exception iff that is '
        'empty; for every rule and text: applicable iff the text ends in the word ending, applied by replacing it, ValueError '
        'otherwise; for every rule set of at most N rules and every text of at most N characters: the feature marks exactly the '
        'regular rules whose ending is a proper ending of the text and the exceptions that are the text')
ASSUMPTIONS = ['look-up: texts and endings of up to 3 characters, any characters; rule sets of up to 2 rules (3 up to 2 characters)']

SPEC = '''
def common(w, l):
    n = min(len(w), len(l))
    for i in range(n):
        if w[i] != l[i]:
            return i
    return n

def derive(w, l):
    n = common(w, l)
    return w[n:], l[n:], n != 0

def same_rule(a, b, c, x, y, z):
    return a == x and b == y and c == z

def apply(ending, new, text):
    if not text.endswith(ending):
        raise ValueError()
    return text[:len(text) - len(ending)] + new

def applicable(word, rules, size):
    out = [False] * size
    for ending, regular, index in rules:
        if regular:
            if len(ending) < len(word) and word.endswith(ending):
                out[index] = True
        elif word == ending:
            out[index] = True
    return {'name': out}

class Text(object):
    def __init__(self, text):
        self._text = text
    def lower(self):
        return self._text

class Token(object):
    def __init__(self, text):
        self.text = Text(text)
'''


def rule_of(it, c, s, ending, new, exc):
    return it.call(c, [ending, new, exc], {}, None, s, None)


def derive(chk):
    it = chk.interp()
    it.define(SPEC)
    st = it.start()
    c = chk.anchor(it, L + 'LemmaSuffixTransformation')
    w, l = sym('word', 'str'), sym('lemma', 'str')

    def got(s):
        r = it.call_method(c, 'get_rule', [w, l], None, s, None)
        return tup(*[it.get_attr(r, a, None, s) for a in ('word_suffix', 'lemma_suffix', 'is_regular')])
    chk.same('the derived rule keeps the longest common beginning', L + 'LemmaSuffixTransformation.get_rule', it, st, got,
             lambda s: it.call(it.glob('spec:derive'), [w, l], {}, None, s, None))


def use(chk, exc):
    it = chk.interp()
    it.define(SPEC)
    st = it.start()
    c = chk.anchor(it, L + 'LemmaSuffixTransformation')
    a, b, t = sym('ending', 'str'), sym('new_ending', 'str'), sym('text', 'str')
    k = 'exception' if exc else 'regular'
    new = lambda s: rule_of(it, c, s, a, b, const(exc))
    chk.same('%s: applied' % k, L + 'LemmaSuffixTransformation.transform', it, st,
             lambda s: it.call_method(new(s), 'transform', [t], None, s, None),
             lambda s: it.call(it.glob('spec:apply'), [a, b, t], {}, None, s, None))
    chk.same('%s: applicable' % k, L + 'LemmaSuffixTransformation.is_applicable', it, st,
             lambda s: it.call_method(new(s), 'is_applicable', [t], None, s, None),
             lambda s: it.call_method(t, 'endswith', [a], None, s, None))


def ordered(chk):
    it = chk.interp()
    st = it.start()
    c = chk.anchor(it, L + 'LemmaSuffixTransformation')
    fields = lambda n: [sym(n + '_ending', 'str'), sym(n + '_new_ending', 'str'), sym(n + '_exception', 'bool')]
    a, b = fields('a'), fields('b')
    anchor = L + 'LemmaSuffixTransformation.__lt__'
    vals = {}
    for op in ('Lt', 'Gt', 'LtE', 'GtE', 'Eq'):
        def got(s):
            return it.freeze(compare(it, op, it.call(c, a, {}, None, s, None), it.call(c, b, {}, None, s, None), None, s, None), s)
        v, s, raises = it.run(got, st.copy())
        for r in raises:
            chk.never('%s raises nothing' % op, anchor, r.st, '%s at %s' % (show(r.exc), r.where))
        if v is None:
            raise Bad('%s never completes' % op)
        vals[op] = v
    chk.eq('rules are equal iff their endings and kinds are', anchor, vals['Eq'], and_(*[eq(x, y) for x, y in zip(a, b)]), st)
    order_laws(chk, 'rule', anchor, vals, a, b, list(product(('', 'a', 'b'), ('', 'a', 'b'), (False, True))))
    v, s, raises = it.run(lambda s: it.call_method(it.call(c, a, {}, None, s, None), '__hash__', [], None, s, None), st.copy())
    if v is None or raises:
        raise Undecided('hash')
    out = []
    leaves(it.freeze(v, s), out, set(a))
    chk.must('equal rules have equal hashes', L + 'LemmaSuffixTransformation.__hash__', not out, 'hash depends on %s' % [show(x) for x in out])


A, B = sym('char_a', 'str', char=True), sym('char_b', 'str', char=True)


def texts(n):
    """every text of at most n characters out of two different ones"""
    return [p for k in range(n + 1) for p in product((0, 1), repeat=k)]


def lookup(chk, it, words, rules):
    """rules: (ending, exception); the trie is built once and asked for every text"""
    st = it.start()
    st.assume(not_(eq(A, B)))
    c = chk.anchor(it, L + 'LemmaSuffixTransformation')
    trie = chk.anchor(it, L + 'LemmaTransformationTrie')
    feat = chk.anchor(it, X + 'ApplicableSuffixTransformations')
    text = lambda p: cat(*[(A, B)[i] for i in p])
    size = const(len(rules) + 1)

    def got(s):
        rs = [tup(rule_of(it, c, s, text(e), sym('new%d' % k, 'str'), const(x)), const(k + 1)) for k, (e, x) in enumerate(rules)]
        t = it.call_method(trie, 'build', [it.new_iter(s, tuple(('el', r) for r in rs))], None, s, None)
        f = it.call(feat, [const('name'), t, size], {}, None, s, None)
        return tup(*[it.freeze(it.call_method(f, 'get_features', [it.call(it.glob('spec:Token'), [text(w)], {}, None, s, None)],
                                              None, s, None), s) for w in words])

    def want(s):
        rs = [('el', tup(text(e), const(not x), const(k + 1))) for k, (e, x) in enumerate(rules)]
        return tup(*[it.freeze(it.call(it.glob('spec:applicable'), [text(w), it.new_list(s, tuple(rs)), size], {}, None, s, None), s)
                     for w in words])
    name = ', '.join('%s "%s"' % ('exception' if x else 'regular', ''.join('ab'[i] for i in e)) for e, x in rules)
    chk.same('all texts, rules %s' % (name or 'none'), L + 'LemmaTransformationTrie.get_applicable_rules', it, st, got, want)


def lookups(chk, n, lens, k, first=()):
    it = chk.interp()
    it.define(SPEC)
    for rules in product(kinds(lens), repeat=k - len(first)):
        lookup(chk, it, texts(n), first + rules)


def kinds(lens):
    return [(e, x) for e in texts(lens) for x in (False, True)]


def check(chk):
    chk.group('deriving', L + 'LemmaSuffixTransformation.get_rule', derive, chk)
    for exc in (False, True):
        chk.group('applying', L + 'LemmaSuffixTransformation.transform', use, chk, exc)
    chk.group('comparing', L + 'LemmaSuffixTransformation.__lt__', ordered, chk)
    anchor = L + 'LemmaTransformationTrie.get_applicable_rules'
    for n, lens, k in ((3, 0, 0), (4, 3, 1), (3, 1, 3)):
        chk.group('look-up', anchor, lookups, chk, n, lens, k)
    for r in kinds(3):
        chk.group('look-up, two rules', anchor, lookups, chk, 3, 3, 2, (r,))
