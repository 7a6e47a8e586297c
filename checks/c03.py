"""Equality, hashing and ordering of the data model are by value."""
import itertools

from .base import *
from .model import *
from engine.valuate import Valuation, FD, Unknown
from engine.lib import compare

RULE = ('for every pair of objects of a data-model class: == holds exactly when every field of the class agrees, != is its '
        'negation, a foreign object is left to the other operand (NotImplemented); every __hash__ is a function of the '
        'compared fields that ignores dict insertion order; Pos.< is a strict total order whose ties are exactly the '
        'equal values, absent parts included, and >, <=, >= agree with it')
ASSUMPTIONS = ['field values (POS parts, lemma, extras) are themselves compared by value',
               'documents of up to 3 tokens are unrolled']

FIELDS = {
    'Pos': ['upos', 'xpos', 'feats'],
    'TokenExtras': ['extras'],
    'Token': ['start', 'end', 'pos', 'lemma', 'deprel', 'sub_index', 'text_replacement',
              'head_document_index', 'head_sentence_index', 'extras'],
    'Sentence': ['start_token', 'end_token'],
}


def fld(cls, o, f):
    if f == 'feats':
        return mk('attr', o, 'feats@dict', kind='dict')
    if f == 'extras':
        return mk('attr', of('TokenExtras', o) if cls == 'Token' else o, 'extras@dict', kind='dict')
    return attr(o, f)


def strip(st):
    st.pc = tuple(erase(c) for c in st.pc)
    return st


def equality(chk, cls):
    it = install(chk.interp())
    chk.anchor(it, DM + cls)
    a, b = obj(cls, 'a'), obj(cls, 'b')
    st = it.start(*(token_inv(a) + token_inv(b) if cls == 'Token' else []))
    anchor = DM + cls + '.__eq__'
    got = {}
    for op in ('Eq', 'NotEq'):
        v, s, raises = it.run(lambda s: erase(compare(it, op, it.expand(a, s), it.expand(b, s), None, s, None)), st.copy())
        for r in raises:
            chk.never('%s %s raises nothing' % (cls, op), anchor, r.st, '%s at %s' % (show(r.exc), r.where))
        if v is None:
            raise Bad('comparison never completes')
        got[op] = v
    chk.eq('%s: != negates ==' % cls, anchor, got['NotEq'], not_(got['Eq']), s)
    v = got['Eq']
    yes = strip(s.copy())
    yes.assume(v)
    same = strip(s.copy())
    for f in FIELDS[cls]:
        e = eq(fld(cls, a, f), fld(cls, b, f))
        same.assume(e)
        near = {fld(cls, b, g): fld(cls, a, g) for g in FIELDS[cls] if g != f}
        chk.holds('%s: equal objects agree in %s' % (cls, f), anchor, e, yes, near=near)
    chk.holds('%s: objects that agree in every field are equal' % cls, anchor, v, same,
              near={fld(cls, b, g): fld(cls, a, g) for g in FIELDS[cls]})
    o = sym('other')
    isinst = mk('isinstance', o, mk('cls', DM + cls), kind='bool')
    s = st.copy()
    s.assume(not_(isinst))
    v, s, raises = it.run(lambda s: it.call_method(a, '__eq__', [o], None, s, None), s)
    chk.must('%s: a foreign object is not compared' % cls, anchor,
             v is not None and s.simp(v) in (mk('const', 'NotImplementedType', NotImplemented), NOTIMPL, FALSE) and not raises,
             'compared with a foreign object gives %s' % (show(s.simp(v)) if v is not None else 'an exception'))


from engine.lib import NOTIMPLEMENTED as NOTIMPL

INSENSITIVE = ('sorted', 'set', 'frozenset', 'len', 'in', 'counter')


def order_sensitive(t, dicts, safe=False):
    """does the value of t depend on the insertion order of one of dicts?"""
    if isinstance(t, tuple):
        return any(order_sensitive(x, dicts, safe) for x in t)
    if not isinstance(t, T):
        return False
    if t in dicts:
        return not safe
    if t.op == 'sorted' and t.args[1] is NONE:
        safe = True
    elif t.op in ('set', 'frozenset', 'len', 'in', 'counter', 'eq', 'item', 'truthy'):
        safe = True
    elif t.op == 'frz' and t.args[0] in ('set', 'frozenset'):
        safe = True
    elif t.op in ('item', 'slice'):
        safe = False
    return any(order_sensitive(x, dicts, safe) for x in t.args)


def leaves(t, out, allowed):
    if isinstance(t, tuple):
        for x in t:
            leaves(x, out, allowed)
    elif isinstance(t, T):
        if t in allowed or t.op == 'const':
            return
        if t.op in ('sym', 'obj', 'ref', 'ext', 'phi', 'poison', 'id', 'call'):
            out.append(t)
        for x in t.args:
            leaves(x, out, allowed)


def hashing(chk, cls):
    it = install(chk.interp())
    chk.anchor(it, DM + cls)
    if it.class_attr(it.classes[DM + cls], '__hash__') is None:
        return
    a = obj(cls, 'a')
    st = it.start(*(token_inv(a) if cls == 'Token' else []))
    anchor = DM + cls + '.__hash__'
    v, s, raises = it.run(lambda s: erase(it.freeze(it.call_method(a, '__hash__', [], None, s, None), s)), st)
    for r in raises:
        chk.never('hash of a %s raises nothing' % cls, anchor, r.st, '%s at %s' % (show(r.exc), r.where))
    if v is None:
        raise Undecided('hash')
    allowed = {fld(cls, a, f) for f in FIELDS[cls]}
    out = []
    leaves(v, out, allowed)
    if any(t.op in ('ref', 'id') or t is a for t in out):
        raise Bad('hash depends on object identity: %s' % show(v))
    if out:
        raise Undecided('hash depends on %s' % show(out[0]))
    dicts = {t for t in allowed if kind(t) == 'dict'}
    x = v.args[0] if v.op == 'hash' else v
    if not order_sensitive(v, dicts):
        chk.add('PROVED', '%s: equal objects have equal hashes' % cls, anchor)
        return
    d = next(iter(dicts))
    items = (('q', '1'), ('k', '2'))
    try:
        p, q = [Valuation(1, fixed={d: FD(o)}).ev(x) for o in (items, items[::-1])]
    except Unknown as e:
        raise Undecided('hash: %s' % e)
    if p != q:
        raise Bad('hash of %s depends on the insertion order of %s' % (show(x), show(d)))
    raise Undecided('hash of %s' % show(x))


CLOSED = {'and', 'or', 'not', 'ite', 'eq', 'eq0', 'lt', 'const', 'attr', 'obj', 'sorted', 'items', 'tup', 'is', 'ge0', 'lin',
          'truthy', 'sym'}


def ops(t, out):
    if isinstance(t, tuple):
        for x in t:
            ops(x, out)
    elif isinstance(t, T):
        out.add(t.op)
        if t.op not in ('attr', 'const', 'sym'):
            for x in t.args:
                ops(x, out)


def ordering(chk):
    it = install(chk.interp())
    chk.anchor(it, DM + 'Pos')
    a, b = obj('Pos', 'a'), obj('Pos', 'b')
    st = it.start()
    anchor = DM + 'Pos.__lt__'
    vals = {}
    for op in ('Lt', 'Gt', 'LtE', 'GtE', 'Eq'):
        v, s, raises = it.run(lambda s: erase(it.freeze(compare(it, op, it.expand(a, s), it.expand(b, s), None, s, None), s)), st.copy())
        for r in raises:
            chk.never('Pos %s raises nothing' % op, anchor, r.st, '%s at %s' % (show(r.exc), r.where))
        if v is None:
            raise Bad('%s never completes' % op)
        vals[op] = v
    words = (None, 'a', 'b')
    dicts = (FD(), FD([('a', 'x')]), FD([('a', 'y')]), FD([('b', 'x')]), FD([('a', 'x'), ('b', 'x')]))
    fields = lambda o: [fld('Pos', o, f) for f in ('upos', 'xpos', 'feats')]
    order_laws(chk, 'Pos', anchor, vals, fields(a), fields(b), list(itertools.product(words, words, dicts)))


def order_laws(chk, what, anchor, vals, a, b, objs):
    """vals: the values of the five comparisons of two objects with fields a and b; objs: representative field values"""
    used = set()
    for v in vals.values():
        ops(v, used)
    chk.count('comparison operators summarised', len(vals))
    rel = {}
    n = 0
    for i, x in enumerate(objs):
        for j, y in enumerate(objs):
            fx = {}
            for o, vv in ((a, x), (b, y)):
                fx.update(zip(o, vv))
            try:
                for op, v in vals.items():
                    rel[op, i, j] = bool(Valuation(1, fixed=fx).ev(v))
                    n += 1
            except Unknown as e:
                raise Undecided('comparison: %s' % e)
            except TypeError as e:
                raise Bad('%r and %r cannot be compared: %s' % (x, y, e))
    chk.count('order-type representatives evaluated', n)
    N = range(len(objs))

    def law(name, bad):
        for w in bad:
            chk.add('REFUTED', what + ' order: ' + name, anchor, 'fails for %s' % ', '.join(repr(objs[i]) for i in w))
            return
        chk.add('PROVED' if used <= CLOSED else 'UNDECIDED', what + ' order: ' + name, anchor,
                '' if used <= CLOSED else 'summary uses %s' % (used - CLOSED))
    law('irreflexive', ((i,) for i in N if rel['Lt', i, i]))
    law('exactly one of <, ==, > holds', ((i, j) for i in N for j in N
                                           if rel['Lt', i, j] + rel['Lt', j, i] + rel['Eq', i, j] != 1))
    below = {i: [j for j in N if rel['Lt', i, j]] for i in N}
    law('transitive', ((i, j, k) for i in N for j in below[i] for k in below[j] if not rel['Lt', i, k]))
    law('> is the converse of <', ((i, j) for i in N for j in N if rel['Gt', i, j] != rel['Lt', j, i]))
    law('<= is < or ==', ((i, j) for i in N for j in N if rel['LtE', i, j] != (rel['Lt', i, j] or rel['Eq', i, j])))
    law('>= is > or ==', ((i, j) for i in N for j in N if rel['GtE', i, j] != (rel['Lt', j, i] or rel['Eq', i, j])))


def documents(chk, it, pa, ba, pb, bb):
    """two documents of tokens at the given places in the given sentences, everything else arbitrary"""
    A = DM + 'Document.__eq__'
    st = it.start()
    L = lambda s, xs: it.new_list(s, tuple(('el', x) for x in xs))
    texts = [sym('text%d' % d, 'str') for d in (0, 1)]

    def doc(s, d, places, bounds):
        ts = []
        for i, (x, y) in enumerate(places):
            kw = {k: sym('%s%d%d' % (k, d, i), 'str', nullable=True) for k in ('lemma', 'deprel')}
            if i == 0:
                kw['head_document_index'] = sym('head%d' % d, 'int', nonneg=True)
            ts.append(it.call(it.glob(DM + 'Token'), [const(x), const(y)], kw, None, s, None))
        ss = [it.call(it.glob(DM + 'Sentence'), [const(x), const(y)], {}, None, s, None) for x, y in bounds]
        return it.call(it.glob(DM + 'Document'), [texts[d], L(s, ts), L(s, ss)], {}, None, s, None)

    for d in (0, 1):
        st.assume(ge0(sym('head%d' % d, 'int', nonneg=True)))
    want = FALSE
    if (pa, ba) == (pb, bb):
        want = and_(eq(texts[0], texts[1]), eq(sym('head0', 'int', nonneg=True), sym('head1', 'int', nonneg=True)),
                    *[eq(sym('%s0%d' % (k, i), 'str', nullable=True), sym('%s1%d' % (k, i), 'str', nullable=True))
                      for k in ('lemma', 'deprel') for i in range(len(pa))])
    name = 'documents of tokens %s in sentences %s and %s in %s' % (pa, ba, pb, bb)

    def compared(s, op):
        return erase(it.freeze(compare(it, op, doc(s, 0, pa, ba), doc(s, 1, pb, bb), None, s, None), s))
    for op, w in (('Eq', want), ('NotEq', not_(want))):
        v, s, raises = it.run(lambda s: compared(s, op), st.copy())
        for r in raises:
            chk.never('%s can be compared' % name, A, r.st, '%s at %s' % (show(r.exc), r.where))
        if v is None:
            raise Bad('comparison never completes')
        chk.eq('%s: %s' % (name, op), A, v, w, s)
    if pa != pb or ba != bb:
        return
    o = sym('other')
    st.assume(not_(mk('isinstance', o, mk('cls', DM + 'Document'), kind='bool')))
    v, s, raises = it.run(lambda s: it.call_method(doc(s, 0, pa, ba), '__eq__', [o], None, s, None), st)
    chk.must('a foreign object is not compared with a document', A,
             v is not None and s.simp(v) in (mk('const', 'NotImplementedType', NotImplemented), NOTIMPL, FALSE) and not raises,
             'compared with a foreign object gives %s' % (show(s.simp(v)) if v is not None else 'an exception'))


def check(chk):
    it = install(chk.interp())
    chk.anchor(it, DM + 'Document.__eq__')
    W = ((0, 2), (3, 5), (6, 8))
    one, early, late = ((0, 3),), ((0, 1), (1, 3)), ((0, 2), (2, 3))
    for pa, ba, pb, bb in ((W, one, W, one), (W, early, W, early), (W, early, W, late), (W, one, W, late),
                           (W, one, W[:2], ((0, 2),)), (W, one, ((0, 2), (3, 5), (6, 9)), one), (W[:1], ((0, 1),), (), ())):
        chk.group('Document equality', DM + 'Document.__eq__', documents, chk, it, pa, ba, pb, bb)
    for cls in FIELDS:
        chk.group('%s equality' % cls, DM + cls + '.__eq__', equality, chk, cls)
        chk.group('%s hash' % cls, DM + cls + '.__hash__', hashing, chk, cls)
    chk.group('Pos order', DM + 'Pos.__lt__', ordering, chk)
