"""Models of the Python built-ins and standard-library operations the analysed code uses.

Everything not modelled here is an uninterpreted call (logged as an event by the interpreter)."""
import string as _string

from .terms import *
from . import terms as _t

CONSTS = {'NotImplemented': NOTIMPLEMENTED, 'True': TRUE, 'False': FALSE, 'None': NONE}

ALIASES = {'sys.version_info': tup(const(3), const(12), const(3), const('final'), const(0))}

# calls whose results must never be identified with one another
IMPURE = {'open', 'StringIO', 'Random', 'random', 'randrange', 'shuffle', 'time', 'islice', 'Graph', 'Session',
          'readline', 'read', 'placeholder', 'placeholder_with_default', 'get_variable', 'iter', 'next', 'BytesIO',
          'addWord', 'Sentence', 'listdir', 'walk'}

EXC = {n for n in dir(__import__('builtins'))
       if isinstance(getattr(__import__('builtins'), n), type)
       and issubclass(getattr(__import__('builtins'), n), BaseException)}

KINDS = {'str': 'str', 'int': 'int', 'float': 'float', 'bool': 'bool', 'list': 'list', 'tuple': 'tuple',
         'dict': 'dict', 'set': 'set'}


def _U(msg):
    from .interp import Undecided
    return Undecided(msg)


# ------------------------------------------------------------------ smart constructors
def strm(name, x, *args):
    if x.op == 'const' and isinstance(cval(x), str) and all(a.op == 'const' for a in args):
        try:
            return const(getattr(cval(x), name)(*[cval(a) for a in args]))
        except Exception:
            pass
    if x.op == 'ite':
        return ite(x.args[0], strm(name, x.args[1], *args), strm(name, x.args[2], *args))
    if name == 'lower' and x.op == 'strm' and x.args[0] == 'lower':
        return x
    if name in ('strip', 'rstrip', 'lstrip') and (not args or args[0].op == 'const' and isinstance(cval(args[0]), str)):
        chars = cval(args[0]) if args else None
        if chars and all(lacks_char(x, c) for c in chars):
            return x
        if x.op == 'cat':
            head, tail = x.args[0], x.args[-1]
            solid = lambda p: p.op == 'sym' and nonempty_str(p) and all(lacks_char(p, c) for c in chars or WHITE)
            left = name == 'rstrip' or head.op == 'const' and cval(head).lstrip(chars) != '' or solid(head)
            right = name == 'lstrip' or tail.op == 'const' and cval(tail).rstrip(chars) != '' or solid(tail)
            parts = list(x.args)
            if name != 'rstrip' and head.op == 'const':
                parts[0] = const(cval(head).lstrip(chars))
            if name != 'lstrip' and tail.op == 'const':
                parts[-1] = const(cval(parts[-1]).rstrip(chars))
            y = cat(*parts)
            if left and right:
                return y
            rest = 'rstrip' if left else 'lstrip' if right else 'strip'
            if y is not x or rest != name:
                return strm(rest, y, *args)
    k = 'str'
    if name in ('isspace', 'isdigit', 'isalpha', 'isupper', 'islower', 'isalnum', 'isnumeric'):
        k = 'bool'
    return mk('strm', name, x, *args, kind=k)


def contains_str(sub_, x):
    """sub_ in x for strings"""
    if x.op == 'const' and sub_.op == 'const':
        return const(cval(sub_) in cval(x))
    if x.op == 'ite':
        return ite(x.args[0], contains_str(sub_, x.args[1]), contains_str(sub_, x.args[2]))
    if sub_.op == 'const':
        s = cval(sub_)
        if s == '':
            return TRUE
        if any(lacks_char(x, c) for c in s):
            return FALSE
        if x.op == 'cat' and any(p.op == 'const' and s in cval(p) for p in x.args):
            return TRUE
    if x.op == 'slice' and x.args[0] is sub_ and False:
        pass
    return mk('in', sub_, x, kind='bool')


def startswith(x, p):
    if x.op == 'const' and p.op == 'const':
        return const(cval(x).startswith(cval(p)))
    if x.op == 'ite':
        return ite(x.args[0], startswith(x.args[1], p), startswith(x.args[2], p))
    a, b = chars_of(x), chars_of(p)
    if a is not None and b is not None:
        return FALSE if len(b) > len(a) else and_(*[eq(*y) for y in zip(a, b)])
    if p.op == 'const':
        s = cval(p)
        if s == '':
            return TRUE
        f = x.args[0] if x.op == 'cat' else x
        if f.op == 'const' and len(cval(f)) >= len(s):
            return const(cval(f).startswith(s))
        if f.op == 'const' and not s.startswith(cval(f)):
            return FALSE
        if any(lacks_char(x, c) for c in s):
            return FALSE
        if f.op == 'strm' and f.args[0] == 'rstrip' and f.args[1].op == 'cat':
            g, chars = f.args[1].args[0], cval(f.args[2]) if len(f.args) > 2 else None
            if g.op == 'const' and cval(g).rstrip(chars).startswith(s):
                return TRUE
        if f.op == 'str' and kind(f.args[0]) == 'int' and s[0] not in '-0123456789':
            return FALSE
    return mk('startswith', x, p, kind='bool')


def endswith(x, p):
    if x.op == 'const' and p.op == 'const':
        return const(cval(x).endswith(cval(p)))
    if x is p:
        return TRUE
    if x.op == 'ite':
        return ite(x.args[0], endswith(x.args[1], p), endswith(x.args[2], p))
    a, b = chars_of(x), chars_of(p)
    if a is not None and b is not None:
        return FALSE if len(b) > len(a) else and_(*[eq(*y) for y in zip(a[len(a) - len(b):], b)])
    # every suffix x[i:] of x is a suffix
    if p.op == 'slice' and p.args[0] is x and p.args[2] is NONE and p.args[3] is NONE:
        return TRUE
    if p is const(''):
        return TRUE
    return mk('endswith', x, p, kind='bool')


def sjoin(sep, segs):
    segs = norm_segs(segs)
    els = lit_els(segs)
    if els is not None:
        parts = []
        for i, e in enumerate(els):
            if i:
                parts.append(sep)
            parts.append(e)
        if all(kind(p) == 'str' for p in parts):
            return cat(*parts)
    if sep is const('') and len(segs) == 1 and segs[0][0] == 'spl' and kind(segs[0][1]) == 'str':
        return segs[0][1]
    return mk('sjoin', sep, segs, kind='str')


def mod_(a, b):
    if a.op == 'const' and b.op == 'const' and isinstance(cval(a), int) and isinstance(cval(b), int) and cval(b):
        return const(cval(a) % cval(b))
    return mk('modulo', a, b, kind='int')


def floordiv(a, b):
    if a.op == 'const' and b.op == 'const' and isinstance(cval(a), int) and isinstance(cval(b), int) and cval(b):
        return const(cval(a) // cval(b))
    return mk('floordiv', a, b, kind='int' if kind(a) == kind(b) == 'int' else None)


def to_int(x):
    if x.op == 'const':
        try:
            return const(int(cval(x)))
        except Exception:
            return mk('poison', 'int() of a non-number')
    if kind(x) in ('int', 'bool'):
        return x if kind(x) == 'int' else ite(x, ONE, ZERO)
    if x.op == 'str' and kind(x.args[0]) == 'int':
        return x.args[0]
    if x.op == 'ite':
        return ite(x.args[0], to_int(x.args[1]), to_int(x.args[2]))
    return mk('int', x, kind='int')


def in_(x, c):
    return mk('in', x, c, kind='bool')


def keys_(x):
    return mk('keys', x)


def values_(x):
    return mk('values', x)


def items_(x):
    return mk('items', x)


def unorder(segs):
    """the same elements, in an order that is easier to recognise (for operations that do not depend on it)"""
    mcs = {}

    def find(x):
        if isinstance(x, tuple):
            for y in x:
                find(y)
        elif isinstance(x, T):
            find(x.args)
            if x.op == 'most_common' and not x.args[1]:
                mcs[x] = mk('items', x.args[0], kind='list')
    find(segs)
    if not mcs:
        return segs
    out = []
    for s in segs:
        # one pass over the whole of the sequence, element by element
        if s[0] == 'spl' and s[1] in mcs:
            out.append(('spl', mcs[s[1]]))
            continue
        if s[0] == 'gen' and s[2].op == 'len':
            for m, i in mcs.items():
                if s[2] is len_(m):
                    s = ('gen', s[1], s[2], subst_segs(s[3], {item(m, s[1]): item(i, s[1])}))
        out.append(s)
    return tuple(out)


def subst_segs(segs, m):
    memo = {}

    def go(x):
        if isinstance(x, T):
            if x in m:
                return m[x]
            r = memo.get(x)
            if r is None:
                r = memo[x] = x if x.op in ('const', 'sym', 'bv', 'ext', 'fn', 'cls', 'mod', 'phi') else rebuild(x, go)
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(segs)


def sorted_(segs, key, rev):
    segs = norm_segs(segs)
    if key is NONE:
        segs = unorder(segs)
    return mk('sorted', norm_segs(segs), key, rev, kind='list')


def truthy(v):
    if v.op == 'const':
        return const(bool(cval(v))) if v is not NOTIMPLEMENTED else TRUE
    k = kind(v)
    if k == 'bool':
        return v
    if v.op == 'ite':
        return ite(v.args[0], truthy(v.args[1]), truthy(v.args[2]))
    if v.op == 'tup':
        return ge0(sub(seq_len(v.args[0]), ONE))
    if v.op == 'frz':
        if v.args[0] in ('list', 'set'):
            return ge0(sub(seq_len(v.args[1]), ONE))
        if v.args[0] == 'dict':
            return dict_nonempty(v.args[1])
        return TRUE
    if k == 'str':
        return not_(eq(v, const('')))
    if k in ('int', 'float'):
        return not_(eq(v, ZERO))
    if k in ('list', 'tuple', 'dict', 'seq', 'set'):
        return ge0(sub(len_(v), ONE))
    if v.op in ('cls', 'fn', 'ext', 'bm', 'mod', 'meth', 'iref'):
        return TRUE
    sk = symkind(v)
    if sk == 'str':
        return and_(not_(eq(v, NONE)), not_(eq(v, const(''))))
    if sk == 'int':
        return and_(not_(eq(v, NONE)), not_(mk('eq0', v, kind='bool')))
    if sk in ('dict', 'list'):
        return and_(not_(eq(v, NONE)), ge0(sub(mk('len', v, kind='int'), ONE)))
    if sk == 'obj':
        return not_(eq(v, NONE))
    return mk('truthy', v, kind='bool')


_t.REBUILD.update({
    'strm': strm, 'sjoin': sjoin, 'min': min_, 'max': max_, 'modulo': mod_, 'floordiv': floordiv, 'int': to_int,
    'startswith': startswith, 'endswith': endswith, 'truthy': truthy,
})


def dict_nonempty(dsegs):
    cs = []
    for d in dsegs:
        if d[0] == 'kv':
            return TRUE
        if d[0] == 'gs':
            cs.append(and_(d[1], dict_nonempty(d[2])))
        elif d[0] == 'gen':
            cs.append(exists(d[1], d[2], dict_nonempty(d[3])))
        else:
            cs.append(ge0(sub(len_(d[1]), ONE)))
    return or_(*cs)


# ------------------------------------------------------------------ truth
def truth(I, v, st, fr):
    if v.op == 'obj':
        return TRUE
    o = I.obj(st, v)
    if o is not None:
        k, d, m = o
        if k in ('list', 'set'):
            return ge0(sub(seq_len(d), ONE))
        if k == 'dict':
            return dict_nonempty(d)
        if k == 'inst':
            c = I.classes[m.args[0]]
            f = I.class_attr(c, '__bool__')
            if f is not None:
                return truth(I, I.call(I.bind_attr(f, v, m), [], {}, fr, st, None), st, fr)
            f = I.class_attr(c, '__len__')
            if f is not None:
                return truth(I, I.call(I.bind_attr(f, v, m), [], {}, fr, st, None), st, fr)
            return TRUE
        return TRUE
    if v.op == 'ite':
        return ite(v.args[0], truth(I, v.args[1], st, fr), truth(I, v.args[2], st, fr))
    return truthy(v)


# ------------------------------------------------------------------ operators
def _list_payload(I, st, v):
    o = I.obj(st, v)
    if o is not None and o[0] == 'list':
        return o[1]
    if v.op == 'frz' and v.args[0] == 'list':
        return v.args[1]
    if kind(v) == 'list' and v.op not in ('ref', 'iref'):
        return (('spl', v),)
    return None


def binop(I, op, a, b, fr, st, node):
    if a.op == 'poison':
        return a
    if b.op == 'poison':
        return b
    if op == 'Add' and (a.op == 'ite' or b.op == 'ite') and any(
            I.obj(st, y) is not None or y.op in ('frz', 'tup') for x in (a, b) if x.op == 'ite' for y in x.args[1:]):
        x = a if a.op == 'ite' else b
        return I.branch(st, x.args[0], lambda s: binop(I, op, a.args[1] if a is x else a, b.args[1] if b is x else b, fr, s, node),
                        lambda s: binop(I, op, a.args[2] if a is x else a, b.args[2] if b is x else b, fr, s, node))
    if op == 'Add':
        la, lb = _list_payload(I, st, a), _list_payload(I, st, b)
        if la is not None and (lb is not None or I.obj(st, b) is not None):
            if lb is None:
                I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
            return I.new_list(st, tuple(la) + tuple(lb))
        if a.op == 'tup' and b.op == 'tup':
            return tupseq(a.args[0] + b.args[0])
        if a.op == 'tup' and kind(b) == 'tuple' or b.op == 'tup' and kind(a) == 'tuple':
            return tupseq((('spl', a), ('spl', b)))
        if (kind(a) == 'str' and b is NONE) or (kind(a) == 'str' and kind(b) == 'int') or (kind(a) == 'int' and kind(b) == 'str'):
            I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
        if kind(a) == 'str' and kind(b) is None and b.op == 'ite' or kind(b) == 'str' and kind(a) is None and a.op == 'ite':
            pass
        if kind(a) == 'str' and kind(b) is None and b.op in ('app', 'attr', 'item', 'sym'):
            return cat(a, mk('asstr', b, kind='str'))
        return add(a, b)
    if op == 'Sub':
        return sub(a, b)
    if op == 'Mult':
        for x, n in ((a, b), (b, a)):
            p = _list_payload(I, st, x)
            if p is None and x.op == 'tup':
                p = x.args[0]
            if p is not None and (lin_parts(n) is not None or n.op in ('ite', 'max', 'min')):
                if n.op == 'const' and cval(n) <= 32:
                    segs = tuple(p) * max(0, int(cval(n)))
                else:
                    n = st.simp(n)
                    if st.decide(ge0(n)) is not True:
                        n = max_(ZERO, n)
                    segs = (('gen', fresh_bv(), n, tuple(p)),)
                return tupseq(segs) if x.op == 'tup' else I.new_list(st, segs)
            if p is not None:
                segs = (('gen', fresh_bv(), mk('max', ZERO, n, kind='int'), tuple(p)),)
                return tupseq(segs) if x.op == 'tup' else I.new_list(st, segs)
        if kind(a) == 'str' and b.op == 'const' and a.op == 'const' or kind(b) == 'str' and a.op == 'const' and b.op == 'const':
            return const(cval(a) * cval(b))
        return mul(a, b)
    if op == 'Div':
        return div(a, b)
    if op == 'FloorDiv':
        return floordiv(a, b)
    if op == 'Mod':
        if kind(a) == 'str':
            return percent(I, a, b, fr, st)
        if lin_parts(a) is not None and lin_parts(b) is not None:
            if st.decide(ge0(a)) is True and st.decide(ge0(sub(sub(b, a), ONE))) is True:
                return a
            return mod_(a, b)
        return mk('modulo', a, b)
    o = I.obj(st, a)
    if op in ('BitOr', 'BitAnd', 'Sub') and (o is not None and o[0] == 'set'):
        return mk('app', mk('ext', 'set.' + op), (I.freeze(a, st), I.freeze(b, st)), ())
    return mk('binop', op, I.freeze(a, st), I.freeze(b, st))


def percent(I, a, b, fr, st):
    if a.op == 'const':
        args = lit_els(b.args[0]) if b.op == 'tup' else [b]
        s = cval(a)
        parts = []
        i = 0
        buf = ''
        while i < len(s) and args is not None:
            if s[i] == '%' and i + 1 < len(s):
                if s[i + 1] == '%':
                    buf += '%'
                    i += 2
                    continue
                if s[i + 1] in 'sd' and args:
                    parts.append(const(buf))
                    buf = ''
                    parts.append(fmt(I, args[0], '', fr, st))
                    args = args[1:]
                    i += 2
                    continue
                return mk('percent', a, I.freeze(b, st), kind='str')
            buf += s[i]
            i += 1
        parts.append(const(buf))
        return cat(*parts)
    return mk('percent', a, I.freeze(b, st), kind='str')


def as_bool(v):
    return v if kind(v) == 'bool' else truthy(v)


def py_eq(I, a, b, fr, st, node):
    if a is b and a.op not in ('poison',):
        return TRUE
    if a.op == 'poison' or b.op == 'poison':
        return mk('poison', 'comparison with poison', kind='bool')
    if a.op == 'ite':
        return I.branch(st, a.args[0], lambda s: py_eq(I, a.args[1], b, fr, s, node),
                        lambda s: py_eq(I, a.args[2], b, fr, s, node))
    if b.op == 'ite':
        return I.branch(st, b.args[0], lambda s: py_eq(I, a, b.args[1], fr, s, node),
                        lambda s: py_eq(I, a, b.args[2], fr, s, node))
    if a.op == 'obj' and b.op == 'obj' and a.args[0] in I.typed and b.args[0] in I.typed:
        a, b = I.expand(a, st), I.expand(b, st)
    oa, ob = I.obj(st, a), I.obj(st, b)
    for x, y, o in ((a, b, oa), (b, a, ob)):
        if o is not None and o[0] == 'inst':
            c = I.classes[o[2].args[0]]
            if c.fields is not None:
                ea = [o[1][f] for f in c.fields]
                oy = I.obj(st, y)
                if oy is not None and oy[0] == 'inst' and I.classes[oy[2].args[0]].fields is not None:
                    eb = [oy[1][f] for f in I.classes[oy[2].args[0]].fields]
                    if len(ea) != len(eb):
                        return FALSE
                    return and_(*[as_bool(py_eq(I, p, q, fr, st, node)) for p, q in zip(ea, eb)])
                break
            f = I.class_attr(c, '__eq__')
            if f is not None:
                r = I.call(I.bind_attr(f, x, o[2]), [y], {}, fr, st, node)
                if r is not NOTIMPLEMENTED:
                    return r
            elif (ob if x is a else oa) is None and y.op in ('const', 'tup') or \
                    x is a and (ob is None or ob[0] != 'inst') and b.op == 'ref':
                return FALSE
    if oa is not None and ob is not None and (oa[0] == 'inst' or ob[0] == 'inst'):
        return FALSE            # distinct objects without a common equality
    if oa is not None and ob is not None and oa[0] == ob[0] == 'list':
        la, lb = lit_els(oa[1]), lit_els(ob[1])
        if la is not None and lb is not None:
            if len(la) != len(lb):
                return FALSE
            return and_(*[as_bool(py_eq(I, p, q, fr, st, node)) for p, q in zip(la, lb)])
    if a.op == 'tup' and b.op == 'tup':
        la, lb = lit_els(a.args[0]), lit_els(b.args[0])
        if la is not None and lb is not None:
            if len(la) != len(lb):
                return FALSE
            return and_(*[as_bool(py_eq(I, p, q, fr, st, node)) for p, q in zip(la, lb)])
    if (a is NONE and ob is not None) or (b is NONE and oa is not None):
        return FALSE
    return eq(I.freeze(a, st), I.freeze(b, st))


def py_lt(I, a, b, fr, st, node, swapped=False):
    """a < b"""
    if a.op == 'ite':
        return I.branch(st, a.args[0], lambda s: py_lt(I, a.args[1], b, fr, s, node),
                        lambda s: py_lt(I, a.args[2], b, fr, s, node))
    if b.op == 'ite':
        return I.branch(st, b.args[0], lambda s: py_lt(I, a, b.args[1], fr, s, node),
                        lambda s: py_lt(I, a, b.args[2], fr, s, node))
    oa, ob = I.obj(st, a), I.obj(st, b)
    if oa is not None and oa[0] == 'inst':
        f = I.class_attr(I.classes[oa[2].args[0]], '__lt__')
        if f is not None:
            r = I.call(I.bind_attr(f, a, oa[2]), [b], {}, fr, st, node)
            if r is not NOTIMPLEMENTED:
                return r
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    if a.op == 'tup' and b.op == 'tup':
        la, lb = lit_els(a.args[0]), lit_els(b.args[0])
        if la is not None and lb is not None:
            def lex(i, s):
                if i == len(la) or i == len(lb):
                    return const(len(la) < len(lb))
                e = as_bool(py_eq(I, la[i], lb[i], fr, s, node))
                return I.branch(s, e, lambda s2: lex(i + 1, s2), lambda s2: py_lt(I, la[i], lb[i], fr, s2, node))
            return lex(0, st)
        return mk('lt', I.freeze(a, st), I.freeze(b, st), kind='bool')
    if (a is NONE) != (b is NONE) or (a is NONE and b is NONE):
        if a is NONE and b is NONE or never_none(a) or never_none(b):
            I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    if {kind(a), kind(b)} == {'str', 'int'}:
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    for x in (a, b):
        if symkind(x) is not None and info(x) is not None and info(x).nullable and kind(x) is None:
            I.raise_if(st, eq(x, NONE), 'TypeError', node, fr)
    return lt(I.freeze(a, st), I.freeze(b, st))


def compare(I, op, a, b, fr, st, node):
    if op in ('Is', 'IsNot'):
        r = identical(I, a, b, st)
        return r if op == 'Is' else not_(r)
    if op in ('Eq', 'NotEq'):
        r = py_eq(I, a, b, fr, st, node)
        if op == 'NotEq':
            # __ne__ defaults to the negation of __eq__
            oa = I.obj(st, a)
            if oa is not None and oa[0] == 'inst':
                f = I.class_attr(I.classes[oa[2].args[0]], '__ne__')
                if f is not None:
                    return I.call(I.bind_attr(f, a, oa[2]), [b], {}, fr, st, node)
            return not_(as_bool(r))
        return r
    if op in ('In', 'NotIn'):
        r = contains(I, a, b, fr, st, node)
        return r if op == 'In' else not_(as_bool(r))
    if a.op == 'poison' or b.op == 'poison':
        return mk('poison', 'comparison', kind='bool')
    if op == 'Lt':
        return as_bool(py_lt(I, a, b, fr, st, node))
    oa = I.obj(st, a)
    if oa is not None and oa[0] == 'inst':
        return _rich(I, op, a, b, oa[2], fr, st, node)
    if op == 'Gt':
        return as_bool(py_lt(I, b, a, fr, st, node))
    if op == 'LtE':
        return not_(as_bool(py_lt(I, b, a, fr, st, node))) if _total(I, a, st) else \
            or_(as_bool(py_lt(I, a, b, fr, st, node)), as_bool(py_eq(I, a, b, fr, st, node)))
    return not_(as_bool(py_lt(I, a, b, fr, st, node))) if _total(I, a, st) else \
        or_(as_bool(py_lt(I, b, a, fr, st, node)), as_bool(py_eq(I, a, b, fr, st, node)))


def _rich(I, op, a, b, ct, fr, st, node):
    """>, <= and >= on an instance: own method, functools.total_ordering, or the reflected method"""
    c = I.classes[ct.args[0]]
    f = I.class_attr(c, {'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[op])
    if f is not None:
        return as_bool(I.call(I.bind_attr(f, a, ct), [b], {}, fr, st, node))
    if any(d.split('.')[-1] == 'total_ordering' for x in I.mro(ct) if x.op == 'cls' for d in I.classes[x.args[0]].decorators):
        if I.class_attr(c, '__lt__') is None:
            raise _U('total_ordering without __lt__')
        l = as_bool(py_lt(I, a, b, fr, st, node))
        if op == 'GtE':
            return not_(l)
        e = as_bool(py_eq(I, a, b, fr, st, node))
        return or_(l, e) if op == 'LtE' else and_(not_(l), not_(e))
    if op == 'Gt':
        return as_bool(py_lt(I, b, a, fr, st, node))
    I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)


def _total(I, a, st):
    o = I.obj(st, a)
    return o is None or o[0] != 'inst'


def identical(I, a, b, st):
    if a is b:
        return TRUE
    if a.op == 'ite':
        return ite(a.args[0], identical(I, a.args[1], b, st), identical(I, a.args[2], b, st))
    if b.op == 'ite':
        return ite(b.args[0], identical(I, a, b.args[1], st), identical(I, a, b.args[2], st))
    if a is NONE or b is NONE:
        if I.obj(st, a) is not None or I.obj(st, b) is not None:
            return FALSE
        return eq(a, b)
    if a.op == 'const' or b.op == 'const':
        return eq(a, b)
    if a.op in ('ref', 'cls', 'fn') and b.op in ('ref', 'cls', 'fn'):
        return FALSE
    if a.op == 'ext' and b.op == 'ext' and a.args[0] in KINDS and b.args[0] in KINDS:
        return FALSE                        # two different built-in types
    x, y = (a, b) if skey(a) <= skey(b) else (b, a)
    return mk('is', x, y, kind='bool')


def segs_contains(I, x, segs, fr, st, node):
    cs = []
    for s in segs:
        if s[0] == 'el':
            cs.append(as_bool(py_eq(I, x, s[1], fr, st, node)))
        elif s[0] == 'gs':
            cs.append(and_(s[1], segs_contains(I, x, s[2], fr, st, node)))
        elif s[0] == 'gen':
            cs.append(exists(s[1], s[2], segs_contains(I, x, s[3], fr, st, node)))
        else:
            y = s[1]
            fx = I.freeze(x, st)
            if y.op == 'keys':
                cs.append(in_dict(fx, y.args[0]))
            elif y.op == 'sorted':
                cs.append(segs_contains(I, x, y.args[0], fr, st, node))
            else:
                cs.append(in_(fx, y))
    return or_(*cs)


def in_dict(x, d):
    if d.op == 'copyof':
        return in_dict(x, d.args[1])
    if x.op == 'item' and x.args[0].op == 'keys' and x.args[0].args[0] is d:
        return TRUE
    return in_(x, d)


def dsegs_has(I, k, dsegs, fr, st, node):
    cs = []
    for d in dsegs:
        if d[0] == 'kv':
            cs.append(as_bool(py_eq(I, k, d[1], fr, st, node)))
        elif d[0] == 'gs':
            cs.append(and_(d[1], dsegs_has(I, k, d[2], fr, st, node)))
        elif d[0] == 'gen':
            cs.append(exists(d[1], d[2], dsegs_has(I, k, d[3], fr, st, node)))
        else:
            cs.append(in_dict(I.freeze(k, st), d[1]))
    return or_(*cs)


def contains(I, x, c, fr, st, node):
    if c.op == 'ite':
        return I.branch(st, c.args[0], lambda s: contains(I, x, c.args[1], fr, s, node),
                        lambda s: contains(I, x, c.args[2], fr, s, node))
    if c.op == 'obj':
        c = I.expand(c, st)
    o = I.obj(st, c)
    if o is not None:
        k, d, m = o
        if k == 'inst':
            f = I.class_attr(I.classes[m.args[0]], '__contains__')
            if f is not None:
                return as_bool(I.call(I.bind_attr(f, c, m), [x], {}, fr, st, node))
            return segs_contains(I, x, iter_segs(I, c, st, fr, node), fr, st, node)
        if k == 'dict':
            return dsegs_has(I, x, d, fr, st, node)
        if k == 'iter':
            return segs_contains(I, x, iter_segs(I, c, st, fr, node), fr, st, node)
        return segs_contains(I, x, d, fr, st, node)
    if c.op == 'tup':
        return segs_contains(I, x, c.args[0], fr, st, node)
    if c.op == 'frz':
        if c.args[0] == 'dict':
            return dsegs_has(I, x, c.args[1], fr, st, node)
        if c.args[0] in ('list', 'set', 'iter'):
            return segs_contains(I, x, c.args[1], fr, st, node)
    if c is NONE:
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    if kind(c) == 'str':
        return contains_str(x, c)
    fx = I.freeze(x, st)
    return in_dict(fx, I.freeze(c, st))


# ------------------------------------------------------------------ items
def dict_lookup(I, dsegs, k, fr, st, node, missing):
    """value of key k (last write wins); missing() gives the term for an absent key"""
    r = None
    out = [missing]

    def go(i, s):
        if i < 0:
            return out[0](s)
        d = dsegs[i]
        if d[0] == 'kv':
            c = as_bool(py_eq(I, k, d[1], fr, s, node))
            return I.branch(s, c, lambda s2: d[2], lambda s2: go(i - 1, s2))
        if d[0] == 'gs':
            def inner(s2):
                return dict_lookup(I, d[2], k, fr, s2, node, lambda s3: go(i - 1, s3))
            return I.branch(s, d[1], inner, lambda s2: go(i - 1, s2))
        if d[0] == 'spl':
            c = in_dict(I.freeze(k, s), d[1])
            return I.branch(s, c, lambda s2: item(_plain(d[1]), I.freeze(k, s2)), lambda s2: go(i - 1, s2))
        # gen
        bv, n, inner = d[1], d[2], d[3]
        if len(inner) == 1 and inner[0][0] == 'kv':
            kk, vv = inner[0][1], inner[0][2]
            fk = I.freeze(k, s)
            idx = match_index(kk, bv, fk, n, s)
            if idx is not None:
                return subst(vv, {bv: idx})
            c = exists(bv, n, as_bool(eq(I.freeze(kk, s), fk)))

            def found(s2):
                return mk('lookup', bv, n, I.freeze(kk, s2), I.freeze(vv, s2), fk, kind=kind(vv))
            return I.branch(s, c, found, lambda s2: go(i - 1, s2))
        fz = mk('frz', 'dict', (I._frz_arg(d, s, fr, ()),), kind='dict')
        c = in_(I.freeze(k, s), fz)
        return I.branch(s, c, lambda s2: mk('item', fz, I.freeze(k, s2)), lambda s2: go(i - 1, s2))
    return go(len(dsegs) - 1, st)


def match_index(kk, bv, k, n, st):
    """index i < n with kk(i) == k, when kk is injective and k is syntactically one of its values"""
    if kk is bv and lin_parts(k) is not None:
        if st.decide(ge0(k)) is True and st.decide(ge0(sub(sub(n, k), ONE))) is True:
            return k
        return None
    if kk.op == 'item' and kk.args[1] is bv and k.op == 'item' and k.args[0] is kk.args[0]:
        i = k.args[1]
        if i.op == 'bv' or (st.decide(ge0(i)) is True and st.decide(ge0(sub(sub(n, i), ONE))) is True):
            return i
    if kk.op == 'lin' and lin_parts(k) is not None and dict(kk.args[1]).get(bv) == 1:
        i = sub(k, sub(kk, bv))
        if st.decide(ge0(i)) is True and st.decide(ge0(sub(sub(n, i), ONE))) is True:
            return i
    return None


def _plain(x):
    return x.args[1] if x.op == 'copyof' else x


def seq_get(I, segs, i, fr, st, node, guard=True):
    segs = norm_segs(segs)
    n = seq_len(segs)
    i = st.simp(i)
    if i.op == 'const' and not isinstance(cval(i), int) or i.op in ('tup', 'frz', 'slice'):
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    if guard and lin_parts(i) is not None:
        if i.op == 'const':
            bad = ge0(sub(i, n)) if cval(i) >= 0 else not_(ge0(add(n, i)))
        else:
            bad = or_(ge0(sub(i, n)), not_(ge0(add(n, i))))
            if st.decide(ge0(i)) is True:
                bad = ge0(sub(i, n))
        I.raise_if(st, bad, 'IndexError', node, fr)
    if i.op != 'const' and lin_parts(i) is not None and st.decide(ge0(i)) is None:
        # sign unknown
        r1 = seg_item(segs, i)
        r2 = seg_item(segs, add(n, i))
        if r1 is not None and r2 is not None:
            return ite(ge0(i), r1, r2)
        x = I.freeze(tupseq(segs), st)
        return mk('item', x, i)
    if i.op != 'const' and st.decide(ge0(i)) is False:
        i = st.simp(add(n, i))
    r = seg_item(segs, i)
    if r is not None:
        return r
    # prefix of unconditional single elements, then something indexable
    off = ZERO
    for p, s in enumerate(segs):
        ix = indexable((s,))
        if ix is None:
            break
        cnt = ix[0]
        if st.decide(ge0(sub(sub(add(off, cnt), i), ONE))) is True and st.decide(ge0(sub(i, off))) is True:
            return ix[1](st.simp(sub(i, off)))
        off = add(off, cnt)
    return mk('item', mk('frz', 'list', I._frz_arg(segs, st, fr, ()), kind='list'), i)


def get_item(I, b, i, fr, st, node):
    if b.op == 'ite':
        return I.branch(st, b.args[0], lambda s: get_item(I, b.args[1], i, fr, s, node),
                        lambda s: get_item(I, b.args[2], i, fr, s, node))
    if b.op == 'poison' or i.op == 'poison':
        return b if b.op == 'poison' else i
    if b.op == 'obj':
        if (b.args[0], '__getitem__') in I.method_model:
            return I.method_model[b.args[0], '__getitem__'](I, st, b, [i], {})
        b = I.expand(b, st)
    o = I.obj(st, b)
    if o is not None:
        k, d, m = o
        if k == 'list':
            if i.op == 'ite':
                return I.branch(st, i.args[0], lambda s: get_item(I, b, i.args[1], fr, s, node),
                                lambda s: get_item(I, b, i.args[2], fr, s, node))
            return seq_get(I, d, i, fr, st, node)
        if k == 'dict':
            def missing(s):
                if m and m[0] == 'default':
                    v = I.call(m[1], [], {}, fr, s, node)
                    set_item(I, b, i, v, fr, s, node)
                    return v
                if m and m[0] == 'counter':
                    return ZERO
                I.do_raise(s, mk('exc', 'KeyError', (I.freeze(i, s),)), node, fr)
            return dict_lookup(I, d, i, fr, st, node, missing)
        if k == 'inst':
            c = I.classes[m.args[0]]
            if c.fields is not None:
                if i.op == 'const':
                    return d[c.fields[cval(i)]]
                raise _U('namedtuple index')
            f = I.class_attr(c, '__getitem__')
            if f is not None:
                return I.call(I.bind_attr(f, b, m), [i], {}, fr, st, node)
            raise _U('subscript of an instance')
        raise _U('subscript')
    if b.op == 'tup':
        return seq_get(I, b.args[0], i, fr, st, node)
    if b.op == 'frz':
        if b.args[0] in ('list', 'iter'):
            return seq_get(I, b.args[1], i, fr, st, node)
        if b.args[0] == 'dict':
            return dict_lookup(I, b.args[1], i, fr, st, node,
                               lambda s: I.do_raise(s, mk('exc', 'KeyError', ()), node, fr))
    if b is NONE:
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    fi = I.freeze(i, st)
    if b.op == 'copyof':
        b = b.args[1]
    if kind(b) == 'str' or (kind(b) == 'list' and lin_parts(fi) is not None):
        if lin_parts(fi) is not None:
            n = len_(b)
            fi = st.simp(fi)
            if st.decide(ge0(fi)) is False:
                fi = st.simp(add(n, fi))
    return item(b, fi)


def set_item(I, b, i, v, fr, st, node):
    if b.op == 'ite':
        def setter(x):
            def f(s):
                set_item(I, x, i, v, fr, s, node)
                return NONE
            return f
        I.branch(st, b.args[0], setter(b.args[1]), setter(b.args[2]))
        return
    o = I.obj(st, b)
    if o is not None and b.op == 'ref':
        k, d, m = o
        if k == 'dict':
            st.heap[b.args[0]] = (k, tuple(norm_dict(d + (('kv', i, v),))), m)
            return
        if k == 'list':
            els = lit_els(d)
            i = st.simp(i)
            if i.op == 'const' and els is not None:
                j = cval(i)
                if not -len(els) <= j < len(els):
                    I.do_raise(st, mk('exc', 'IndexError', ()), node, fr)
                els = list(els)
                els[j] = v
                st.heap[b.args[0]] = (k, tuple(('el', e) for e in els), m)
                return
            if lin_parts(i) is not None:
                n = seq_len(d)
                bad = ge0(sub(i, n)) if st.decide(ge0(i)) is True else or_(ge0(sub(i, n)), not_(ge0(add(n, i))))
                I.raise_if(st, bad, 'IndexError', node, fr)
            if i is ZERO or i is ONE:
                whole = I.new_list(st, d)
                segs = tuple(('el', get_item(I, whole, const(j), fr, st, node)) for j in range(cval(i))) + (('el', v),)
                rest = get_slice(I, whole, const(cval(i) + 1), NONE, NONE, fr, st, node)
                st.heap[b.args[0]] = (k, segs + tuple(iter_segs(I, rest, st, fr, node)), m)
                return
            base = mk('frz', 'list', I._frz_arg(d, st, fr, ()), kind='list')
            if len(d) == 1 and d[0][0] == 'spl':
                base = d[0][1]
            st.heap[b.args[0]] = (k, (('spl', mk('upd', base, i, v, kind='list')),), m)
            return
        if k == 'inst':
            f = I.class_attr(I.classes[m.args[0]], '__setitem__')
            if f is not None:
                I.call(I.bind_attr(f, b, m), [i, v], {}, fr, st, node)
                return
        raise _U('item assignment')
    if b.op == 'iref':
        raise _U('mutation of a per-iteration object')
    I.log(st, const('setitem'), I.freeze(b, st), I.freeze(i, st), I.freeze(v, st))


def del_item(I, b, i, fr, st, node):
    o = I.obj(st, b)
    if o is not None and o[0] == 'dict' and b.op == 'ref' and all(d[0] == 'kv' for d in o[1]):
        ks = [d for d in o[1] if d[1] is not i]
        if len(ks) < len(o[1]):
            st.heap[b.args[0]] = ('dict', tuple(ks), o[2])
            return
    raise _U('del item')


def get_slice(I, b, lo, hi, sp, fr, st, node):
    if b.op == 'ite':
        return I.branch(st, b.args[0], lambda s: get_slice(I, b.args[1], lo, hi, sp, fr, s, node),
                        lambda s: get_slice(I, b.args[2], lo, hi, sp, fr, s, node))
    if kind(b) == 'str':
        return str_slice(b, lo, hi, sp, st)
    o = I.obj(st, b)
    segs = None
    if o is not None and o[0] == 'list':
        segs = o[1]
    elif b.op == 'tup':
        segs = b.args[0]
    elif b.op == 'frz' and b.args[0] == 'list':
        segs = b.args[1]
    elif kind(b) == 'list':
        segs = (('spl', b),)
    elif o is not None:
        raise _U('slice')
    if segs is None:
        if b is NONE:
            I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
        return slice_(b, lo, hi, sp)
    els = lit_els(segs)
    wrap = (lambda s: tupseq(s)) if b.op == 'tup' else (lambda s: I.new_list(st, s))
    if els is not None and all(x.op == 'const' for x in (lo, hi, sp)):
        return wrap([('el', e) for e in els[cval(lo):cval(hi):cval(sp)]])
    if sp.op != 'const' or cval(sp) not in (None, 1):
        if sp.op == 'const' and cval(sp) == -1 and lo is NONE and hi is NONE:
            return wrap(rev_segs(segs))
        raise _U('stepped slice')
    # drop literal ends
    segs = list(norm_segs(segs))
    if lo.op == 'const' and hi is NONE and cval(lo) is not None and cval(lo) >= 0:
        k = cval(lo)
        while k and segs and segs[0][0] == 'el':
            segs.pop(0)
            k -= 1
        if k == 0:
            return wrap(segs)
        lo = const(k)
    if lo is NONE and hi.op == 'const' and cval(hi) is not None and cval(hi) < 0:
        k = -cval(hi)
        while k and segs and segs[-1][0] == 'el':
            segs.pop()
            k -= 1
        if k == 0:
            return wrap(segs)
        hi = const(-k)
    if lo is NONE and hi is NONE:
        return wrap(segs)
    n = seq_len(segs)
    l2, cnt = eff_bounds(n, lo, hi, st)
    ix = indexable(segs)
    if ix is None:
        x = mk('frz', 'list', I._frz_arg(tuple(segs), st, fr, ()), kind='list')
        if lo in (NONE, ZERO) and l2 is ZERO and hi is not NONE and st.decide(ge0(hi)) is True:
            # a beginning: all of a short one
            short = ge0(sub(hi, n))
            return wrap(norm_segs([('gs', short, tuple(segs)), ('gs', not_(short), (('spl', slice_(x, NONE, hi)),))]))
        return wrap([('spl', slice_(x, lo, hi))])
    bv = fresh_bv()
    return wrap([('gen', bv, cnt, (('el', ix[1](add(l2, bv))),))])


def eff_bounds(n, lo, hi, st):
    """(effective start, effective count) of x[lo:hi] with len(x) == n"""
    def clamp(x, dflt):
        if x is NONE:
            return dflt
        x = st.simp(x)
        if st.decide(ge0(x)) is True:
            return x if st.decide(ge0(sub(n, x))) is True else min_(x, n)
        if st.decide(ge0(x)) is False:
            y = add(n, x)
            return y if st.decide(ge0(y)) is True else max_(ZERO, y)
        return mk('clamp', x, n, kind='int')
    a, b = clamp(lo, ZERO), clamp(hi, n)
    c = st.simp(sub(b, a))
    if st.decide(ge0(c)) is not True:
        c = max_(ZERO, c)
    return a, c


def str_slice(b, lo, hi, sp, st):
    lo, hi = [x if x is NONE or x.op == 'const' else st.simp(x) for x in (lo, hi)]
    if b.op in ('sym', 'cat') and all(x.op == 'const' for x in (lo, hi, sp)) and cval(sp) != 0:
        c = chars_of(b)
        if c is not None:
            return cat(*c[cval(lo):cval(hi):cval(sp)])
    if sp.op == 'const' and cval(sp) in (None, 1):
        if lo is not NONE and lo.op != 'const':
            lo = st.simp(lo)
        if hi is not NONE and hi.op != 'const':
            hi = st.simp(hi)
        n = len_(b)
        if hi is not NONE and lo is not NONE and b.op in ('sym', 'obj', 'attr', 'item') and hi is add(lo, ONE) \
                and nonneg(lo) and st.decide(ge0(sub(n, hi))) is True:
            return item(b, lo)
        if hi is not NONE and hi is n:
            hi = NONE
        # (x ++ y)[:len(x)] and (x ++ y)[len(x):]
        if b.op == 'cat':
            pre = ZERO
            for k in range(len(b.args) + 1):
                if hi is pre and lo in (NONE, ZERO):
                    return cat(*b.args[:k])
                if lo is pre and hi is NONE:
                    return cat(*b.args[k:])
                if k < len(b.args):
                    pre = add(pre, len_(b.args[k]))
            # constant bounds inside a constant first or last part
            if lo.op == 'const' and isinstance(cval(lo), int) and cval(lo) > 0 and b.args[0].op == 'const' and \
                    cval(lo) <= len(cval(b.args[0])) and (hi is NONE or hi.op == 'const' and cval(hi) < 0 and min_len(b) >= cval(lo) - cval(hi)):
                b, lo = cat(const(cval(b.args[0])[cval(lo):]), *b.args[1:]), NONE
                return str_slice(b, lo, hi, sp, st)
            if lo in (NONE, ZERO) and hi.op == 'const' and isinstance(cval(hi), int) and cval(hi) < 0 and \
                    b.args[-1].op == 'const' and -cval(hi) <= len(cval(b.args[-1])):
                return cat(*(b.args[:-1] + (const(cval(b.args[-1])[:cval(hi)]),)))
        # x[: len(x) - len(x[m:])] == x[:m]  for 0 <= m <= len(x)
        if hi is not NONE and hi.op == 'lin':
            for a, k in hi.args[1]:
                if a.op == 'len' and k == -1 and a.args[0].op == 'slice' and a.args[0].args[0] is b \
                        and a.args[0].args[2] is NONE and a.args[0].args[3] is NONE:
                    m = a.args[0].args[1]
                    if sub(hi, sub(n, a)) is ZERO and m is not NONE:
                        if st.decide(ge0(m)) is True and st.decide(ge0(sub(n, m))) is True:
                            return slice_(b, lo, m)
    return slice_(b, lo, hi, sp)


def rev_segs(segs):
    out = []
    for s in reversed(norm_segs(segs)):
        if s[0] == 'el':
            out.append(s)
        elif s[0] == 'spl':
            out.append(('spl', mk('rev', s[1], kind=kind(s[1]))))
        elif s[0] == 'gs':
            out.append(('gs', s[1], tuple(rev_segs(s[2]))))
        else:
            bv, n, inner = s[1], s[2], s[3]
            j = fresh_bv()
            out.append(('gen', j, n, subst_segs(tuple(rev_segs(inner)), {bv: sub(sub(n, ONE), j)})))
    return out


# ------------------------------------------------------------------ iteration
def iter_segs(I, v, st, fr, node, consume=True):
    if v.op == 'ite':
        if one_text(v):
            return (('spl', v),)
        a = iter_segs(I, v.args[1], st, fr, node, consume)
        b = iter_segs(I, v.args[2], st, fr, node, consume)
        return norm_segs((('gs', v.args[0], tuple(a)), ('gs', not_(v.args[0]), tuple(b))))
    if v.op == 'tup':
        return v.args[0]
    if v.op == 'obj':
        if v.args[0] in I.iter_model:
            return I.iter_model[v.args[0]](I, st, v)
        v = I.expand(v, st)
    if v.op == 'frz':
        if v.args[0] in ('list', 'iter', 'set'):
            return v.args[1]
        if v.args[0] == 'dict':
            return dkeys(v.args[1])
    o = I.obj(st, v)
    if o is not None:
        k, d, m = o
        if k in ('list', 'set'):
            return d
        if k == 'iter':
            if v.op == 'ref':
                return I.force(v, st, consume)
            if d and d[0] == 'thunk':
                raise _U('lazy iterator created in a loop')
            return d
        if k == 'dict':
            return dkeys(d)
        if k == 'inst':
            c = I.classes[m.args[0]]
            if c.fields is not None:
                return tuple(('el', d[f]) for f in c.fields)
            f = I.class_attr(c, '__iter__')
            if f is not None:
                r = I.call(I.bind_attr(f, v, m), [], {}, fr, st, node)
                return iter_segs(I, r, st, fr, node)
            f = I.class_attr(c, '__getitem__')
            if f is not None:
                return getitem_protocol(I, v, st, fr, node)
        raise _U('iteration over %s' % k)
    if v is NONE:
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    if v.op == 'const' and isinstance(cval(v), str):
        return tuple(('el', const(c)) for c in cval(v))
    if v.op in ('sym', 'cat') and kind(v) == 'str':
        c = chars_of(v)
        if c is not None:
            return tuple(('el', x) for x in c)
    if v.op == 'copyof':
        v = v.args[1]
    if kind(v) == 'dict':
        return (('spl', keys_(v)),)
    if v.op == 'poison':
        raise _U('iteration over undefined value')
    return (('spl', v),)


def getitem_protocol(I, v, st, fr, node):
    """elements of an object iterated through __getitem__: indices 0, 1, ... until IndexError"""
    j = fresh_bv()
    probe = st.copy()
    saved, I.collector = I.collector, []
    try:
        I.call_method(v, '__getitem__', [j], fr, probe, node)
        raised = I.collector
    finally:
        I.collector = saved
    n = None
    others = []
    for r in raised:
        if r.exc.op == 'exc' and r.exc.args[0] == 'IndexError':
            g = and_(*r.st.pc[len(st.pc):])
            g = st.simp(g)
            p = lin_parts(g.args[0]) if g.op == 'ge0' else None
            if p is not None and p[1].get(j) == 1:
                m = neg(sub(g.args[0], j))
                if not occurs(j, m):
                    n = m if n is None else min_(n, m)
                    continue
            return _u_raise('iteration protocol of %s' % show(v))
        others.append(r)
    if n is None:
        _u_raise('iteration protocol: no end')
    acc = I.alloc(st, 'list', ())
    from .interp import Flow

    def run(x, jj):
        f = Flow()
        from .interp import Dead
        try:
            e = I.call_method(v, '__getitem__', [jj], fr, x, node)
        except Dead:
            return f
        o = x.heap[acc.args[0]]
        x.heap[acc.args[0]] = ('list', o[1] + (('el', e),), None)
        f.fall = x
        return f
    out, brks = Flow(), []
    res = I.generic_loop(n, run, fr, st, out, brks)
    if res is None:
        from .interp import Dead
        raise Dead()
    if res is not st:
        st.become(res)
    segs = st.heap[acc.args[0]][1]
    return segs


def _u_raise(msg):
    raise _U(msg)


def distinct_key(kk, bv):
    if kk is bv:
        return True
    if kk.op == 'lin' and bv in dict(kk.args[1]):
        return True
    if kk.op == 'item' and kk.args[1] is bv:
        return distinct_seq(kk.args[0])
    return False


def distinct_seq(x):
    if x.op == 'keys':
        return True
    if x.op == 'sorted':
        segs = x.args[0]
        if len(segs) == 1:
            s = segs[0]
            if s[0] == 'spl':
                return distinct_seq(s[1])
            if s[0] == 'gen':
                inner = s[3]
                if len(inner) == 1 and inner[0][0] == 'gs':
                    inner = inner[0][2]
                return len(inner) == 1 and inner[0][0] == 'el' and distinct_key(inner[0][1], s[1])
    return False


def dkeys(dsegs):
    """key sequence of a dict payload (keys pairwise distinct, or an opaque key sequence)"""
    ks = []
    seen = set()
    ok = True
    for d in dsegs:
        if d[0] == 'kv':
            if not all(eq(d[1], k) is FALSE for k in seen) or (d[1].op != 'const' and any(x[0] != 'kv' for x in dsegs)):
                ok = False
            seen.add(d[1])
            ks.append(('el', d[1]))
        elif d[0] == 'spl':
            ks.append(('spl', keys_(_plain(d[1]))))
            ok = ok and len(dsegs) == 1
        elif d[0] == 'gen':
            if len(d[3]) == 1 and d[3][0][0] == 'kv' and (distinct_key(d[3][0][1], d[1]) or True) and len(dsegs) == 1:
                if not distinct_key(d[3][0][1], d[1]):
                    ok = False
                ks.append(('gen', d[1], d[2], (('el', d[3][0][1]),)))
            else:
                ok = False
        elif d[0] == 'gs':
            inner = d[2]
            if all(x[0] == 'kv' and x[1].op == 'const' and x[1] not in seen for x in inner):
                for x in inner:
                    seen.add(x[1])
                ks.append(('gs', d[1], tuple(('el', x[1]) for x in inner)))
            else:
                ok = False
    if ok:
        return norm_segs(ks)
    return (('spl', keys_(mk('frz', 'dict', tuple(dsegs), kind='dict'))),)


def ditems(I, dsegs, st):
    """item-pair sequence of a dict payload"""
    out = []
    simple = True
    keys = set()
    for d in dsegs:
        if d[0] == 'kv' and all(eq(d[1], k) is FALSE for k in keys) and \
                (d[1].op == 'const' or all(x[0] == 'kv' for x in dsegs)):
            keys.add(d[1])
            out.append(('el', tup(d[1], d[2])))
        elif d[0] == 'spl' and len(dsegs) == 1:
            out.append(('spl', items_(_plain(d[1]))))
        elif d[0] == 'gen' and len(dsegs) == 1 and len(d[3]) == 1 and d[3][0][0] == 'kv' and \
                distinct_key(d[3][0][1], d[1]):
            out.append(('gen', d[1], d[2], (('el', tup(d[3][0][1], d[3][0][2])),)))
        elif d[0] == 'gs' and all(x[0] == 'kv' and x[1].op == 'const' and x[1] not in keys for x in d[2]):
            for x in d[2]:
                keys.add(x[1])
            out.append(('gs', d[1], tuple(('el', tup(x[1], x[2])) for x in d[2])))
        else:
            simple = False
    if simple:
        return norm_segs(out)
    return (('spl', items_(mk('frz', 'dict', I._frz_arg(tuple(dsegs), st, None, ()), kind='dict'))),)


def dvalues(I, dsegs, st):
    segs = ditems(I, dsegs, st)
    if len(segs) == 1 and segs[0][0] == 'spl' and segs[0][1].op == 'items':
        return (('spl', values_(segs[0][1].args[0])),)

    def go(ss):
        r = []
        for s in ss:
            if s[0] == 'el':
                r.append(('el', item(s[1], ONE)))
            elif s[0] == 'gs':
                r.append(('gs', s[1], tuple(go(s[2]))))
            elif s[0] == 'gen':
                r.append(('gen', s[1], s[2], tuple(go(s[3]))))
            else:
                r.append(s)
        return r
    return norm_segs(go(segs))


def dict_segs(I, d, fr, st, node):
    if d.op == 'ite':
        a = dict_segs(I, d.args[1], fr, st, node)
        b = dict_segs(I, d.args[2], fr, st, node)
        if a == b:
            return a
        return (('gs', d.args[0], tuple(a)), ('gs', not_(d.args[0]), tuple(b)))
    o = I.obj(st, d)
    if o is not None:
        if o[0] == 'dict':
            return o[1]
        if o[0] == 'inst':
            ks = I.find_attr(d, 'keys', st)
            if ks is not None:
                segs = iter_segs(I, I.call_method(d, 'keys', [], fr, st, node), st, fr, node)
                raise _U('mapping protocol')
    if d.op == 'frz' and d.args[0] == 'dict':
        return d.args[1]
    if d.op == 'copyof':
        return (('spl', d.args[1]),)
    if kind(d) == 'dict' or d.op in ('sym', 'attr', 'item', 'app'):
        return (('spl', d),)
    # an iterable of pairs
    from .interp import pairs_to_dsegs
    return tuple(pairs_to_dsegs(iter_segs(I, d, st, fr, node)))


def norm_dict(dsegs):
    """drop writes overridden by a later write of the same (syntactic) key; keep first position"""
    out = []
    pos = {}
    for d in dsegs:
        if d[0] == 'kv':
            p = pos.get(d[1])
            if p is not None:
                out[p] = ('kv', d[1], d[2])
                continue
            pos[d[1]] = len(out)
            out.append(d)
            if d[1].op != 'const':
                # a symbolic key may coincide with earlier ones: they stay, but may not be updated in place later
                pos = {k: v for k, v in pos.items() if k is d[1]}
        elif d[0] == 'spl' and d[1].op == 'frz' and d[1].args[0] == 'dict':
            for x in d[1].args[1]:
                out.append(x)
            pos = {}
        else:
            out.append(d)
            pos = {}
    return tuple(out)


# ------------------------------------------------------------------ strings
def fmt(I, x, spec, fr, st):
    if spec not in ('', ':'):
        if x.op == 'const' and spec != '?':
            try:
                return const(format(cval(x), spec))
            except Exception:
                pass
        return mk('fmt', I.freeze(x, st), spec, kind='str')
    if x.op == 'ite':
        return ite(x.args[0], fmt(I, x.args[1], spec, fr, st), fmt(I, x.args[2], spec, fr, st))
    o = I.obj(st, x)
    if o is not None or x.op == 'obj':
        return mk('str', I.freeze(x, st), kind='str')
    return to_str(I.freeze(x, st))


def repr_(I, x, fr, st):
    if x.op == 'const':
        return const(repr(cval(x))) if x is not NOTIMPLEMENTED else const('NotImplemented')
    return mk('repr', I.freeze(x, st), kind='str')


def str_format(I, s, args, kw, fr, st):
    if s.op == 'ite':
        return ite(s.args[0], str_format(I, s.args[1], args, kw, fr, st), str_format(I, s.args[2], args, kw, fr, st))
    # arguments given as one opaque sequence: '{}={}'.format(*item)
    flat = []
    for a in args:
        if a.op == 'star':
            n = None
            if s.op == 'const':
                n = sum(1 for _, f, _, _ in _string.Formatter().parse(cval(s)) if f is not None) - len(flat)
            ix = indexable(a.args[0])
            if ix is None or n is None:
                return mk('format', s, tuple(I.freeze(x, st) for x in args), kind='str')
            flat += [ix[1](const(i)) for i in range(n)]
        else:
            flat.append(a)
    if s.op == 'cat' and not kw and all(p.op == 'const' or _plain_text(p) for p in s.args) and \
            not any(f and not f.isidentifier() for p in s.args if p.op == 'const'
                    for _, f, _, _ in _string.Formatter().parse(cval(p))):
        out, k = [], 0
        for p in s.args:
            if p.op != 'const':
                out.append(p)
                continue
            n = sum(1 for _, f, _, _ in _string.Formatter().parse(cval(p)) if f is not None)
            out.append(str_format(I, p, flat[k:k + n], kw, fr, st))
            k += n
        return cat(*out)
    if s.op != 'const':
        return mk('format', s, tuple(I.freeze(x, st) for x in flat), kind='str')
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(cval(s)):
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        name = field
        if name == '':
            name, auto = str(auto), auto + 1
        base = name.split('.')[0].split('[')[0]
        if base.isdigit():
            if int(base) >= len(flat):
                return mk('poison', 'format index', kind='str')
            x = flat[int(base)]
        elif base in kw:
            x = kw[base]
        else:
            return mk('poison', 'format key', kind='str')
        if base != name:
            return mk('format', s, tuple(I.freeze(y, st) for y in flat), kind='str')
        if conv == 'r':
            x = repr_(I, x, fr, st)
        parts.append(fmt(I, x, spec or '', fr, st))
    return cat(*parts)


def _plain_text(p):
    """text without format fields"""
    return lacks_char(p, '{') and lacks_char(p, '}')


def path_join(I, args):
    """os.path.join of relative components without trailing separators"""
    r = args[0]
    for b in args[1:]:
        if b.op == 'const' and cval(b).startswith('/'):
            r = b
            continue
        if r.op == 'const':
            r = b if cval(r) == '' else cat(const(cval(r).rstrip('/') + '/'), b)
        elif nonempty_str(r):
            r = cat(r, const('/'), b)
        else:
            r = ite(eq(r, const('')), b, cat(r, const('/'), b))
    return r


def nonempty_str(r):
    if r.op == 'const':
        return cval(r) != ''
    if r.op == 'cat':
        return any(nonempty_str(x) for x in r.args)
    i = info(r)
    return r.op == 'str' or bool(i is not None and i.nonempty)


WHITE = ''.join(chr(i) for i in range(0x3001) if chr(i).isspace())


def words_of(x):
    """list of parts of x.split() with no separator, or None"""
    if x.op == 'const':
        return tuple(('el', const(w)) for w in cval(x).split())
    if x.op not in ('cat', 'sym', 'str'):
        return None
    words, open_ = [], False
    for p in x.args if x.op == 'cat' else (x,):
        if p.op == 'const':
            t = cval(p)
            ws = t.split()
            if ws and open_ and not t[0].isspace():
                words[-1].append(const(ws.pop(0)))
            words += [[const(w)] for w in ws]
            open_ = bool(t) and not t[-1].isspace() or open_ and not t
        elif nonempty_str(p) and all(lacks_char(p, c) for c in WHITE):
            if open_:
                words[-1].append(p)
            else:
                words.append([p])
            open_ = True
        else:
            return None
    return tuple(('el', cat(*w)) for w in words)


def split_str(x, sep, st=None):
    """list of parts (segments) of x.split(sep), or None"""
    s = cval(sep)
    if x.op == 'const':
        return [('el', const(p)) for p in cval(x).split(s)]
    parts = x.args if x.op == 'cat' else (x,)
    if len(parts) == 1 and parts[0].op == 'sjoin' and parts[0].args[0] is sep and len(s) == 1 and \
            segs_lack(parts[0].args[1], s):
        return list(parts[0].args[1])
    cur, out = [], []
    for p in parts:
        if p.op == 'const':
            bits = cval(p).split(s)
            cur.append(const(bits[0]))
            for b in bits[1:]:
                out.append(('el', cat(*cur)))
                cur = [const(b)]
        elif any(lacks_char(p, c) for c in s):
            cur.append(p)
        else:
            return None
    out.append(('el', cat(*cur)))
    return out


def partition_str(x, sep):
    """(before, sep, after) of x.partition(sep), or None when unknown"""
    s = cval(sep)
    if x.op == 'const':
        return [const(p) for p in cval(x).partition(s)]
    parts = list(x.args) if x.op == 'cat' else [x]
    before = []
    for i, p in enumerate(parts):
        if p.op == 'const':
            if s in cval(p):
                a, _, b = cval(p).partition(s)
                return [cat(*(before + [const(a)])), sep, cat(*([const(b)] + parts[i + 1:]))]
            before.append(p)
        elif any(lacks_char(p, c) for c in s):
            before.append(p)
        else:
            return None
    return [x, const(''), const('')]


def call_str(I, s, name, args, kw, fr, st, node):
    if name == 'format':
        return str_format(I, s, args, kw, fr, st)
    if s.op == 'ite' and name in ('split', 'partition', 'join', 'strip', 'rstrip', 'lower', 'startswith', 'endswith',
                                  'replace', 'encode', 'upper'):
        return I.branch(st, s.args[0], lambda z: call_str_or(I, s.args[1], name, args, kw, fr, z, node),
                        lambda z: call_str_or(I, s.args[2], name, args, kw, fr, z, node))
    if name == 'join':
        segs = iter_segs(I, args[0], st, fr, node)
        els = lit_els(norm_segs(segs))
        if els is not None and len(els) > 1 and s.op == 'const':
            texts = [join_text(I, x, st, fr, node) for x in els]
            if all(x is not None for x in texts):
                out = []
                for x in texts:
                    out += [s, x]
                return cat(*out[1:])
        return sjoin(s, I._frz_arg(tuple(segs), st, fr, ()))
    if name == 'split' and args and args[0].op == 'const' and len(args) == 1 and cval(args[0]):
        r = split_str(s, args[0])
        if r is not None:
            return I.new_list(st, r)
        x = mk('split', s, args[0], kind='list')
        return I.new_list(st, (('spl', x),))
    if name == 'split' and not kw and (not args or len(args) == 1 and args[0] is NONE):
        r = words_of(s)
        if r is not None:
            return I.new_list(st, r)
    if name in ('split', 'rsplit', 'splitlines') and s.op == 'const' and not kw and all(a.op == 'const' for a in args):
        try:
            return I.new_list(st, tuple(('el', const(w)) for w in getattr(cval(s), name)(*[cval(a) for a in args])))
        except (TypeError, ValueError):
            pass
    if name in ('split', 'rsplit', 'splitlines'):
        return I.new_list(st, (('spl', mk('split', s, *args, kind='list')),))
    if name == 'partition' and args[0].op == 'const':
        r = partition_str(s, args[0])
        if r is not None:
            return tup(*r)
        x = mk('partition', s, args[0], kind='tuple')
        return tup(*[mk('item', x, const(i), kind='str') for i in range(3)])
    if name == 'startswith' and len(args) == 1 and args[0].op != 'tup':
        return startswith(s, args[0])
    if name == 'endswith' and len(args) == 1 and args[0].op != 'tup':
        return endswith(s, args[0])
    if name == 'replace' and s.op == 'const' and all(a.op == 'const' for a in args):
        return const(cval(s).replace(*[cval(a) for a in args]))
    if name in ('__repr__',):
        return repr_(I, s, fr, st)
    if name in ('__str__',):
        return s
    if name in ('__contains__',):
        return contains_str(args[0], s)
    if name in ('index', 'find', 'count', 'rfind', 'rindex'):
        return mk('strm', name, s, *[I.freeze(a, st) for a in args], kind='int')
    if name == '__len__':
        return len_(s)
    if name == 'encode':
        return mk('strm', name, s, *[I.freeze(a, st) for a in args])
    if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'isspace', 'isdigit', 'isalpha', 'replace', 'title',
                'capitalize', 'casefold', 'swapcase', 'zfill', 'isupper', 'islower', 'rjust', 'ljust', 'isalnum',
                'isnumeric'):
        return strm(name, s, *[I.freeze(a, st) for a in args])
    return mk('strm', name, s, *[I.freeze(a, st) for a in args], kind=None)


def join_text(I, x, st, fr, node):
    """x as a piece of a joined text, or None when it is not known to be a text"""
    if kind(x) == 'str':
        return x
    if x.op == 'ite':
        parts = []
        for c, y in ((x.args[0], x.args[1]), (not_(x.args[0]), x.args[2])):
            z = st.copy()
            z.assume(c)
            parts.append(join_text(I, y, z, fr, node))
        return None if None in parts else ite(x.args[0], *parts)
    if x.op == 'sym' and symkind(x) == 'str' and st.simp(eq(x, NONE)) is FALSE:
        return x
    return None


def call_str_or(I, s, name, args, kw, fr, st, node):
    f = I.get_attr(s, name, fr, st, node)
    return I.call(f, args, kw, fr, st, node)


# ------------------------------------------------------------------ copying
def copy_value(I, v, st, deep, memo=None):
    if memo is None:
        memo = {}
    if v in memo:
        return memo[v]
    o = I.obj(st, v)
    if o is not None:
        k, d, m = o
        if k in ('list', 'set', 'dict'):
            p = _copy_payload(I, d, st, memo) if deep else d
            r = memo[v] = I.alloc(st, k, p, m)
            return r
        if k == 'iter':
            return v
        if k == 'inst':
            if v in I.exp_of:
                return mk('copyof', 'deep' if deep else 'shallow', I.exp_of[v], kind='obj')
            nd = {a: (copy_value(I, x, st, deep, memo) if deep else x) for a, x in d.items()}
            r = memo[v] = I.alloc(st, k, nd, m)
            return r
    if v.op == 'ite':
        return ite(v.args[0], copy_value(I, v.args[1], st, deep, memo), copy_value(I, v.args[2], st, deep, memo))
    if v.op == 'tup':
        return tupseq(_copy_payload(I, v.args[0], st, memo)) if deep else v
    if v.op == 'const' or kind(v) in ('str', 'int', 'bool', 'float', 'none'):
        return v
    if v.op == 'copyof':
        if deep and v.args[0] == 'shallow':
            return mk('copyof', 'deep', v.args[1], kind=v.kind)
        return v
    if v.op in ('cls', 'fn', 'ext', 'mod', 'bm'):
        return v
    if kind(v) == 'dict':
        r = memo[v] = I.new_dict(st, (('spl', mk('copyof', 'deep', v, kind='dict') if deep else v),))
        return r
    return mk('copyof', 'deep' if deep else 'shallow', v, kind=kind(v))


def _copy_payload(I, p, st, memo):
    if isinstance(p, T):
        return copy_value(I, p, st, True, memo)
    if isinstance(p, tuple):
        if p and p[0] == 'gen':
            return ('gen', p[1], p[2], _copy_payload(I, p[3], st, memo))
        if p and p[0] == 'gs':
            return ('gs', p[1], _copy_payload(I, p[2], st, memo))
        if p and p[0] == 'spl':
            x = p[1]
            return ('spl', mk('copyof', 'deep', _plain(x), kind=kind(x)))
        return tuple(_copy_payload(I, x, st, memo) for x in p)
    return p


# ------------------------------------------------------------------ calls
def call(I, f, args, kw, fr, st, node):
    if f.op == 'meth':
        return call_meth(I, f.args[0], f.args[1], args, kw, fr, st, node)
    if f.op == 'attrgetter':
        vs = []
        for n in f.args[0]:
            x = args[0]
            for part in n.split('.'):
                x = I.get_attr(x, part, fr, st, node)
            vs.append(x)
        return vs[0] if len(vs) == 1 else tup(*vs)
    if f.op == 'itemgetter':
        vs = [I.get_item(args[0], k, fr, st, node) for k in f.args[0]]
        return vs[0] if len(vs) == 1 else tup(*vs)
    if f.op == 'partial':
        k2 = dict(f.args[2])
        k2.update(kw)
        return I.call(f.args[0], list(f.args[1]) + args, k2, fr, st, node)
    if f.op == 'methodcaller':
        return I.call_method(args[0], f.args[0], list(f.args[1]), fr, st, node)
    name = f.args[0]
    h = BUILTINS.get(name)
    if h is not None:
        return h(I, args, kw, fr, st, node)
    if name in EXC:
        return mk('exc', name, tuple(I.freeze(a, st) for a in args if a.op != 'star'))
    if name in ('object.__init__', 'object.__enter__', 'object.__exit__'):
        return NONE
    if '.' in name:
        top, last = name.rsplit('.', 1)
        if top in ('list', 'dict', 'str', 'set', 'tuple', 'object') and args:
            return call_meth(I, args[0], last, args[1:], kw, fr, st, node)
        if top in EXC:
            return NONE
    if name == 'os.path.join' and args and not kw and all(kind(a) == 'str' for a in args):
        return path_join(I, args)
    return I.opaque_call(f, args, kw, fr, st, node, pure=name in PURE)


RESULT_KIND = {'os.path.exists': 'bool', 'os.path.isdir': 'bool', 'os.path.isfile': 'bool'}
PURE = {'os.path.join', 'os.path.dirname', 'os.path.exists', 'os.path.basename', 'os.path.isdir', 'os.path.isfile',
        'math.sqrt', 'typing.TypeVar', 'numpy.finfo'}


def b_len(I, args, kw, fr, st, node):
    return length(I, args[0], fr, st, node)


def length(I, v, fr, st, node):
    if v.op == 'ite':
        return I.branch(st, v.args[0], lambda s: length(I, v.args[1], fr, s, node),
                        lambda s: length(I, v.args[2], fr, s, node))
    if v.op == 'obj':
        v = I.expand(v, st)
    o = I.obj(st, v)
    if o is not None:
        k, d, m = o
        if k == 'list':
            return seq_len(d)
        if k == 'set':
            els = lit_els(d)
            if els is not None and len(els) <= 8:
                n, new = ZERO, []
                for e in els:
                    dup = st.simp(or_(*[eq(e, p) for p in new]))
                    n = add(n, ite(dup, ZERO, ONE))
                    if dup is not TRUE:
                        new.append(e)
                return n
            return mk('len', I.freeze(v, st), kind='int')
        if k == 'dict':
            return dict_len(I, d, st)
        if k == 'inst':
            c = I.classes[m.args[0]]
            if c.fields is not None:
                return const(len(c.fields))
            f = I.class_attr(c, '__len__')
            if f is not None:
                return I.call(I.bind_attr(f, v, m), [], {}, fr, st, node)
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    if v is NONE:
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    if v.op == 'frz' and v.args[0] == 'dict':
        return dict_len(I, v.args[1], st)
    if v.op == 'copyof':
        v = v.args[1]
    return st.simp(len_(v))


def dict_len(I, dsegs, st):
    ks = dkeys(dsegs)
    if len(ks) == 1 and ks[0][0] == 'spl' and ks[0][1].op == 'keys':
        return mk('len', ks[0][1].args[0], kind='int')
    return seq_len(ks)


def b_range(I, args, kw, fr, st, node):
    if len(args) == 1:
        lo, hi = ZERO, args[0]
    else:
        lo, hi = args[0], args[1]
    step = args[2] if len(args) > 2 else ONE
    if step.op != 'const' or cval(step) not in (1, -1):
        if all(a.op == 'const' for a in (lo, hi, step)):
            return I.new_list(st, [('el', const(i)) for i in range(cval(lo), cval(hi), cval(step))])
        raise _U('range step')
    if cval(step) == -1:
        n = sub(lo, hi)
    else:
        n = sub(hi, lo)
    n = st.simp(n)
    if n.op == 'const' and cval(n) <= 64 and lo.op == 'const':
        return I.new_list(st, [('el', const(cval(lo) + i * cval(step))) for i in range(max(0, cval(n)))])
    if lin_parts(n) is None:
        n = mk('asint', n, kind='int')
    if st.decide(ge0(n)) is not True:
        n = max_(ZERO, n)
    bv = fresh_bv()
    return I.new_list(st, (('gen', bv, n, (('el', add(lo, bv) if cval(step) == 1 else sub(lo, bv)),)),))


def enum_segs(segs, off):
    out = []
    for s in norm_segs(segs):
        if s[0] == 'el':
            out.append(('el', tup(off, s[1])))
            off = add(off, ONE)
        elif s[0] == 'spl':
            bv = fresh_bv()
            n = len_(s[1])
            out.append(('gen', bv, n, (('el', tup(add(off, bv), item(s[1], bv))),)))
            off = add(off, n)
        elif s[0] == 'gs':
            out.append(('gs', s[1], tuple(enum_segs(s[2], off))))
            off = add(off, ite(s[1], seq_len(s[2]), ZERO))
        else:
            bv, n, inner = s[1], s[2], s[3]
            per = seq_len(inner)
            k = fresh_bv()
            if per is ONE:
                pre = bv
            else:
                pre = sum_(k, bv, subst(per, {bv: k}))
            out.append(('gen', bv, n, tuple(enum_segs(inner, add(off, pre)))))
            off = add(off, seq_len((s,)))
    return out


def b_enumerate(I, args, kw, fr, st, node):
    off = args[1] if len(args) > 1 else kw.get('start', ZERO)
    src = args[0]
    return I.new_thunk(st, lambda s: enum_segs(iter_segs(I, src, s, fr, node), off))


def zip_segs(I, lists, st):
    lits = [lit_els(norm_segs(l)) for l in lists]
    if all(l is not None for l in lits):
        return [('el', tup(*x)) for x in zip(*lits)]
    ixs = [indexable(l) for l in lists]
    if all(ix is not None for ix in ixs):
        n = None
        for ix in ixs:
            m = st.simp(ix[0])
            if n is None or n is m:
                n = m
            elif st.decide(ge0(sub(m, n))) is True:
                pass
            elif st.decide(ge0(sub(n, m))) is True:
                n = m
            else:
                n = min_(n, m)
        bv = fresh_bv()
        return [('gen', bv, n, (('el', tup(*[ix[1](bv) for ix in ixs])),))]
    # sequences of the same shape, next to sequences that have an item for each of their positions
    lists = [norm_segs(l) for l in lists]
    irr = [k for k, ix in enumerate(ixs) if ix is None]
    n = st.simp(seq_len(lists[irr[0]]))
    if all(ix is None or st.decide(ge0(sub(st.simp(ix[0]), n))) is True for ix in ixs):
        r = zip_aligned([lists[k] for k in irr], ZERO)
        if r is not None:
            def place(i, xs):
                xs = iter(xs)
                return tup(*[next(xs) if ix is None else ix[1](i) for ix in ixs])

            def walk(segs):
                return tuple(('el', place(x[1], x[2])) if x[0] == 'at' else x[:-1] + (walk(x[-1]),) for x in segs)
            return list(walk(r))
    raise _U('zip of irregular sequences: %s' % ' ### '.join(show(tupseq(l))[:300] for l in lists))


def zip_aligned(lists, off):
    """segments with leaves ('at', position, items) for sequences of the same shape; None otherwise"""
    if len(set(len(l) for l in lists)) != 1:
        return None
    out = []
    for ss in zip(*lists):
        kinds = set(s[0] for s in ss)
        if kinds == {'el'}:
            out.append(('at', off, [s[1] for s in ss]))
            off = add(off, ONE)
            continue
        if kinds == {'gs'}:
            inner = zip_aligned([norm_segs(s[2]) for s in ss], off) if all(s[1] is ss[0][1] for s in ss) else None
            if inner is None or any(seq_len(s[2]) is not seq_len(ss[0][2]) for s in ss):
                return None
            out.append(('gs', ss[0][1], inner))
            off = add(off, ite(ss[0][1], seq_len(ss[0][2]), ZERO))
            continue
        ixs = [indexable((s,)) for s in ss]
        bv = fresh_bv()
        if all(ix is not None for ix in ixs):
            n = ixs[0][0]
            if any(ix[0] is not n for ix in ixs):
                return None
            out.append(('gen', bv, n, [('at', add(off, bv), [ix[1](bv) for ix in ixs])]))
            off = add(off, n)
            continue
        if kinds != {'gen'} or any(s[2] is not ss[0][2] for s in ss):
            return None
        ins = [norm_segs(subst_segs(s[3], {s[1]: bv})) for s in ss]
        per = seq_len(ins[0])
        if any(seq_len(x) is not per for x in ins):
            return None
        k = fresh_bv()
        inner = zip_aligned(ins, add(off, bv if per is ONE else sum_(k, bv, subst(per, {bv: k}))))
        if inner is None:
            return None
        out.append(('gen', bv, ss[0][2], inner))
        off = add(off, seq_len((ss[0],)))
    return out


def widths(segs):
    """the lengths of the tuples in a sequence; None for anything else"""
    out = set()
    for s in segs:
        if s[0] == 'el':
            els = lit_els(s[1].args[0]) if s[1].op == 'tup' else None
            out.add(None if els is None else len(els))
        elif s[0] == 'gen':
            out |= widths(s[3])
        elif s[0] == 'gs':
            out |= widths(s[2])
        else:
            out.add(None)
    return out


def component(segs, i):
    """the sequence of the i-th items"""
    return tuple(('el', lit_els(s[1].args[0])[i]) if s[0] == 'el' else s[:3] + (component(s[3], i),) if s[0] == 'gen' else
                 s[:2] + (component(s[2], i),) for s in segs)


def b_zip(I, args, kw, fr, st, node):
    if len(args) == 1 and args[0].op == 'star':
        segs = norm_segs(args[0].args[0])
        w = widths(segs)
        if len(w) == 1 and None not in w and len(segs) > 1:
            return I.new_list(st, [('el', tupseq(component(segs, i))) for i in range(w.pop())])
        if len(segs) == 1 and segs[0][0] == 'gen' and len(segs[0][3]) == 1 and segs[0][3][0][0] == 'el':
            e = segs[0][3][0][1]
            els = lit_els(e.args[0]) if e.op == 'tup' else None
            if els is not None:
                return I.new_list(st, [('el', tupseq((('gen', segs[0][1], segs[0][2], (('el', x),)),))) for x in els])
        return I.new_list(st, (('spl', mk('transpose', I._frz_arg(segs, st, fr, ()), kind='list')),))
    if any(a.op == 'star' for a in args):
        raise _U('zip(*)')
    srcs = list(args)
    return I.new_thunk(st, lambda s: zip_segs(I, [iter_segs(I, a, s, fr, node) for a in srcs], s))


def map_loop(I, segs, st, fr, fn):
    """segments obtained by fn(state, element) -> segments, for every element in order"""
    from .interp import Flow, Dead
    acc = I.alloc(st, 'list', ())

    def body(x, el):
        out = fn(x, el)
        o = x.heap[acc.args[0]]
        x.heap[acc.args[0]] = ('list', norm_segs(o[1] + tuple(out)), None)
        f = Flow()
        f.fall = x
        return f
    f = I.loop(segs, body, [], fr, st)
    if f.fall is None:
        raise Dead()
    if f.fall is not st:
        st.become(f.fall)
    r = st.heap[acc.args[0]][1]
    st.heap.pop(acc.args[0], None)
    return r


def b_map(I, args, kw, fr, st, node):
    fn, srcs = args[0], args[1:]
    if len(srcs) == 1:
        return I.new_thunk(st, lambda s: map_loop(I, iter_segs(I, srcs[0], s, fr, node), s, fr,
                                                  lambda x, el: [('el', I.call(fn, [el], {}, fr, x, node))]))

    def forced(s):
        z = zip_segs(I, [iter_segs(I, a, s, fr, node) for a in srcs], s)
        return map_loop(I, z, s, fr, lambda x, el: [('el', I.call(fn, lit_els(el.args[0]), {}, fr, x, node))])
    return I.new_thunk(st, forced)


def b_filter(I, args, kw, fr, st, node):
    fn, src = args

    def one(x, el):
        c = el if fn is NONE else I.call(fn, [el], {}, fr, x, node)
        return [('gs', truth(I, c, x, fr), (('el', el),))]
    return I.new_thunk(st, lambda s: map_loop(I, iter_segs(I, src, s, fr, node), s, fr, one))


def b_sorted(I, args, kw, fr, st, node):
    segs = iter_segs(I, args[0], st, fr, node)
    return I.new_list(st, (('spl', make_sorted(I, segs, kw, fr, st, node)),))


def make_sorted(I, segs, kw, fr, st, node):
    segs = norm_segs(segs)
    els = lit_els(segs)
    rev = truth(I, kw.get('reverse', FALSE), st, fr)
    key = kw.get('key', NONE)
    if els is not None and all(e.op == 'const' for e in els) and key is NONE and rev.op == 'const':
        try:
            return tupseq([('el', const(x)) for x in sorted([cval(e) for e in els], reverse=cval(rev))])
        except TypeError:
            pass
    if els is not None and 0 < len(els) <= 16 and rev.op == 'const':
        r = sort_literal(I, els, key, cval(rev), fr, st, node)
        if r is not None:
            return tupseq([('el', x) for x in r])
    kt = NONE
    if key is not NONE:
        kt = sort_key(I, segs, key, fr, st, node)
    if len(segs) == 1 and segs[0][0] == 'spl' and segs[0][1].op == 'sorted' and segs[0][1].args[2] is rev:
        # sorting what is sorted by the same key already
        inner = segs[0][1].args
        if len(inner[0]) == 1 and inner[0][0][0] == 'spl' and \
                subst_any(kt, {item(segs[0][1], KEYBV): item(inner[0][0][1], KEYBV)}) is inner[1]:
            return segs[0][1]
    return sorted_(I._frz_arg(segs, st, fr, ()), kt, rev)


def sort_literal(I, els, key, rev, fr, st, node):
    """the elements in order, if every comparison of their keys is decided"""
    from .interp import Dead
    z = st.copy()
    saved, I.collector = I.collector, []
    try:
        ks = [e if key is NONE else I.call(key, [e], {}, fr, z, node) for e in els]
        if any(k.op == 'ite' for k in ks):
            return None
        out = []
        for i, k in enumerate(ks):
            j = len(out)
            while j > 0:
                a, b = (k, ks[out[j - 1]]) if not rev else (ks[out[j - 1]], k)
                c = z.simp(as_bool(py_lt(I, a, b, fr, z, node)))
                if c.op != 'const':
                    return None
                if not cval(c):
                    break
                j -= 1
            out.insert(j, i)
        if I.collector:
            return None
        return [els[i] for i in out]
    except Dead:
        return None
    finally:
        I.collector = saved


KEYBV = mk('bv', 0, kind='int')


def sort_key(I, segs, key, fr, st, node):
    """canonical term of the sort key of a generic element"""
    el = None
    s = segs[0] if len(segs) == 1 else None
    x = None
    if s is not None and s[0] == 'spl':
        el = item(s[1], KEYBV)
    elif s is not None and s[0] == 'gen':
        inner = s[3]
        if len(inner) == 1 and inner[0][0] == 'gs':
            inner = inner[0][2]
        if len(inner) == 1 and inner[0][0] == 'el':
            el = subst(inner[0][1], {s[1]: KEYBV})
    if el is None:
        el = sym('sortkey-element')
    z = st.copy()
    saved, I.collector = I.collector, []
    try:
        return I.freeze(I.call(key, [el], {}, fr, z, node), z)
    finally:
        I.collector = saved


def b_reversed(I, args, kw, fr, st, node):
    v = args[0]
    if kind(v) == 'str' and v.op != 'const':
        return I.new_iter(st, (('spl', mk('rev', v, kind='str')),))
    return I.new_iter(st, rev_segs(iter_segs(I, v, st, fr, node)))


def b_list(I, args, kw, fr, st, node):
    return I.new_list(st, iter_segs(I, args[0], st, fr, node) if args else ())


def b_tuple(I, args, kw, fr, st, node):
    if args and args[0].op == 'tup':
        return args[0]
    return tupseq(iter_segs(I, args[0], st, fr, node) if args else ())


def b_set(I, args, kw, fr, st, node):
    segs = iter_segs(I, args[0], st, fr, node) if args else ()
    out, seen = [], set()
    for s in segs:
        if s in seen:
            continue
        seen.add(s)
        out.append(s)
    return I.alloc(st, 'set', tuple(out))


def b_dict(I, args, kw, fr, st, node):
    ds = ()
    if args:
        ds = tuple(dict_segs(I, args[0], fr, st, node))
    if '**' in kw:
        ds += (('spl', kw['**']),)
    ds += tuple(('kv', const(k), v) for k, v in kw.items() if k != '**')
    return I.new_dict(st, norm_dict(ds))


def b_str(I, args, kw, fr, st, node):
    if not args:
        return const('')
    x = args[0]
    o = I.obj(st, x)
    if o is not None and o[0] == 'inst':
        for n in ('__str__', '__repr__'):
            f = I.find_attr(x, n, st)
            if f is not None:
                return I.call(I.bind_attr(f, x, o[2]), [], {}, fr, st, node)
    return fmt(I, x, '', fr, st)


def b_int(I, args, kw, fr, st, node):
    if not args:
        return ZERO
    x = args[0]
    if x is NONE:
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    if x.op == 'const' and len(args) == 1:
        not_number(I, int, x, fr, st, node)
    return to_int(I.freeze(x, st))


def not_number(I, f, x, fr, st, node):
    try:
        f(cval(x))
    except (ValueError, TypeError, OverflowError) as e:
        I.do_raise(st, mk('exc', type(e).__name__, ()), node, fr)


def b_float(I, args, kw, fr, st, node):
    x = args[0]
    if x.op == 'const':
        not_number(I, float, x, fr, st, node)
        return const(float(cval(x)))
    return mk('float', I.freeze(x, st), kind='float')


def b_bool(I, args, kw, fr, st, node):
    return truth(I, args[0], st, fr) if args else FALSE


def b_isinstance(I, args, kw, fr, st, node):
    x, c = args
    if c.op == 'tup':
        return or_(*[b_isinstance(I, [x, e[1]], kw, fr, st, node) for e in c.args[0]])
    if x.op == 'ite':
        return ite(x.args[0], b_isinstance(I, [x.args[1], c], kw, fr, st, node),
                   b_isinstance(I, [x.args[2], c], kw, fr, st, node))
    ct = I.class_of(x, st)
    if ct is not None and ct.args[0] in I.classes:
        if c.op == 'cls':
            return const(c in I.mro(ct))
        if c.op == 'ext':
            return const(c.args[0] == 'object' or c.args[0] in I.ext_bases(ct))
    if c.op == 'ext':
        n = c.args[0]
        o = I.obj(st, x)
        if o is not None:
            k = {'list': 'list', 'dict': 'dict', 'set': 'set'}.get(o[0])
            if n.split('.')[-1] == 'Counter':
                return const(bool(o[2] and o[2][0] == 'counter'))
            return const(k == n)
        k = kind(x)
        if x.op == 'counter':
            return const(n.split('.')[-1] in ('Counter', 'dict'))
        if k in KINDS and (n in KINDS):
            return const(k == n or (k == 'bool' and n == 'int'))
        if x is NONE:
            return FALSE
        if x.op in ('tup',):
            return const(n == 'tuple')
    if c.op == 'cls' and (x.op == 'const' or kind(x) in KINDS or x.op == 'ref'):
        return FALSE
    return mk('isinstance', I.freeze(x, st), c, kind='bool')


def b_type(I, args, kw, fr, st, node):
    x = args[0]
    if x.op == 'ite':
        return ite(x.args[0], b_type(I, [x.args[1]], kw, fr, st, node), b_type(I, [x.args[2]], kw, fr, st, node))
    ct = I.class_of(x, st)
    if ct is not None:
        return ct
    o = I.obj(st, x)
    if o is not None and o[0] in ('list', 'dict', 'set'):
        return mk('ext', o[0])
    if kind(x) in KINDS:
        return mk('ext', kind(x))
    return mk('type', I.freeze(x, st))


def agg_segs(I, segs, st, fr, leaf, comb, quant):
    out = []
    for s in norm_segs(segs):
        if s[0] == 'el':
            out.append(leaf(s[1]))
        elif s[0] == 'gs':
            out.append(quant('gs', s[1], None, agg_segs(I, s[2], st, fr, leaf, comb, quant)))
        elif s[0] == 'gen':
            out.append(quant('gen', s[1], s[2], agg_segs(I, s[3], st, fr, leaf, comb, quant)))
        else:
            bv = fresh_bv()
            out.append(quant('gen', bv, len_(s[1]), leaf(item(s[1], bv))))
    return comb(out)


def b_any(I, args, kw, fr, st, node):
    segs = iter_segs(I, args[0], st, fr, node)
    return agg_segs(I, segs, st, fr, lambda e: truth(I, e, st, fr), lambda cs: or_(*cs),
                    lambda k, a, n, c: and_(a, c) if k == 'gs' else exists(a, n, c))


def b_all(I, args, kw, fr, st, node):
    segs = iter_segs(I, args[0], st, fr, node)
    return agg_segs(I, segs, st, fr, lambda e: truth(I, e, st, fr), lambda cs: and_(*cs),
                    lambda k, a, n, c: or_(not_(a), c) if k == 'gs' else forall(a, n, c))


def b_sum(I, args, kw, fr, st, node):
    segs = I._frz_arg(tuple(iter_segs(I, args[0], st, fr, node)), st, fr, ())
    start = args[1] if len(args) > 1 else kw.get('start', ZERO)

    def comb(xs):
        r = None
        for x in xs:
            r = x if r is None else add(r, x)
        return r if r is not None else ZERO

    def quant(k, a, n, c):
        if k == 'gs':
            return ite(a, c, ZERO)
        return sum_(a, n, c)
    r = agg_segs(I, segs, st, fr, lambda e: ite(e, ONE, ZERO) if kind(e) == 'bool' else e, comb, quant)
    if start is ZERO:
        return r
    return add(start, r)


def b_minmax(which):
    def f(I, args, kw, fr, st, node):
        if len(args) >= 2 and 'key' not in kw:
            r = args[0]
            for x in args[1:]:
                if lin_parts(r) is not None and lin_parts(x) is not None:
                    d = st.decide(ge0(sub(x, r)))
                    if d is not None:
                        r = (r if d else x) if which == 'min' else (x if d else r)
                        continue
                    r = min_(r, x) if which == 'min' else max_(r, x)
                else:
                    a, b = I.freeze(r, st), I.freeze(x, st)
                    r = ite(lt(b, a), b, a) if which == 'min' else ite(lt(a, b), b, a)
            return r
        segs = I._frz_arg(tuple(iter_segs(I, args[0], st, fr, node)), st, fr, ())
        key = kw.get('key', NONE)
        kt = sort_key(I, norm_segs(segs), key, fr, st, node) if key is not NONE else NONE
        extra = (I.freeze(kw['default'], st),) if 'default' in kw else ()
        k = None
        ss = norm_segs(segs)
        els = [x[1] for x in ss] if ss and all(x[0] == 'el' for x in ss) else None
        if els and kt is NONE and all(kind(x) == 'int' and lin_parts(x) is not None for x in els):
            r = els[0]
            for x in els[1:]:
                d = st.decide(ge0(sub(x, r)))
                if d is not None:
                    r = (r if d else x) if which == 'min' else (x if d else r)
                else:
                    r = min_(r, x) if which == 'min' else max_(r, x)
            return r
        if len(ss) == 1 and ss[0][0] == 'gen' and len(ss[0][3]) == 1 and ss[0][3][0][0] == 'el':
            k = kind(ss[0][3][0][1])
        return mk(which + '_of', ss, kt, *extra, kind=k)
    return f


def b_iter(I, args, kw, fr, st, node):
    v = args[0]
    if len(args) == 2:
        # the calls take turns with whatever the consumer does
        raise _U('iter with a sentinel')
    o = I.obj(st, v)
    if o is not None and o[0] == 'iter':
        return v
    if o is not None and o[0] == 'inst':
        f = I.find_attr(v, '__iter__', st)
        if f is not None:
            return I.call_method(v, '__iter__', [], fr, st, node)
    return I.new_iter(st, iter_segs(I, v, st, fr, node))


def b_next(I, args, kw, fr, st, node):
    v = args[0]
    o = I.obj(st, v)
    if o is not None and o[0] == 'iter' and v.op == 'ref':
        segs = list(norm_segs(I.force(v, st, consume=False)))
        if not segs:
            if len(args) > 1:
                return args[1]
            I.do_raise(st, mk('exc', 'StopIteration', ()), node, fr)
        if segs[0][0] == 'el':
            st.heap[v.args[0]] = ('iter', tuple(segs[1:]), o[2])
            return segs[0][1]
        ix = indexable(segs)
        if ix is not None:
            n, f = ix

            def some(s):
                b = fresh_bv()
                s.heap[v.args[0]] = ('iter', (('gen', b, sub(n, ONE), (('el', f(add(b, ONE))),)),), o[2])
                return f(ZERO)

            def none(s):
                if len(args) > 1:
                    return args[1]
                I.do_raise(s, mk('exc', 'StopIteration', ()), node, fr)
            return I.branch(st, ge0(sub(n, ONE)), some, none)
        raise _U('next()')
    return I.opaque_call(mk('ext', 'next'), args, kw, fr, st, node)


def b_hash(I, args, kw, fr, st, node):
    x = args[0]
    o = I.obj(st, x)
    if o is not None and o[0] == 'inst':
        f = I.find_attr(x, '__hash__', st)
        if f is not None:
            return I.call(I.bind_attr(f, x, o[2]), [], {}, fr, st, node)
    return mk('hash', I.freeze(x, st), kind='int')


def b_repr(I, args, kw, fr, st, node):
    return repr_(I, args[0], fr, st)


def b_print(I, args, kw, fr, st, node):
    I.log(st, const('print'), tup(*[I.freeze(a, st) for a in args]))
    return NONE


def b_getattr(I, args, kw, fr, st, node):
    if args[1].op == 'const':
        return I.get_attr(args[0], cval(args[1]), fr, st, node)
    return mk('dynattr', I.freeze(args[0], st), I.freeze(args[1], st))


def b_hasattr(I, args, kw, fr, st, node):
    x = args[0]
    ct = I.class_of(x, st)
    if ct is not None and ct.args[0] in I.classes and args[1].op == 'const':
        o = I.obj(st, I.expand(x, st) if x.op == 'obj' else x)
        n = cval(args[1])
        return const(I.class_attr(I.classes[ct.args[0]], n) is not None or n in o[1])
    return mk('hasattr', I.freeze(x, st), args[1], kind='bool')


def b_setattr(I, args, kw, fr, st, node):
    if args[1].op == 'const':
        I.set_attr(args[0], cval(args[1]), args[2], fr, st, node)
        return NONE
    raise _U('setattr')


def flatten(I, v, fr, st, node):
    segs = iter_segs(I, v, st, fr, node)
    return map_loop(I, segs, st, fr, lambda x, el: iter_segs(I, el, x, fr, node))


def b_chain(I, args, kw, fr, st, node):
    srcs = list(args)

    def forced(s):
        out = ()
        for a in srcs:
            if a.op == 'star':
                out += tuple(map_loop(I, a.args[0], s, fr, lambda x, el: iter_segs(I, el, x, fr, node)))
            else:
                out += tuple(iter_segs(I, a, s, fr, node))
        return out
    return I.new_thunk(st, forced)


def b_product(I, args, kw, fr, st, node):
    if kw or any(a.op == 'star' and lit_els(a.args[0]) is None for a in args):
        raise _U('itertools.product')
    srcs = []
    for a in args:
        srcs += [s[1] for s in a.args[0]] if a.op == 'star' else [a]
    pools = [tuple(iter_segs(I, a, st, fr, node)) for a in srcs]

    def nest(i, prefix, s):
        if i == len(pools):
            return (('el', tup(*prefix)),)
        return map_loop(I, pools[i], s, fr, lambda x, el: nest(i + 1, prefix + [el], x))
    return I.new_iter(st, nest(0, [], st))


def b_islice(I, args, kw, fr, st, node):
    if kw or len(args) not in (2, 3):
        raise _U('itertools.islice with a step')
    src = args[0]
    lo, hi = (ZERO, args[1]) if len(args) == 2 else args[1:]
    if I.obj(st, src) is None or I.obj(st, src)[0] != 'iter':
        src = I.new_iter(st, iter_segs(I, src, st, fr, node))
    if src.op != 'ref':
        raise _U('islice of an iterator created in a loop')

    def forced(s):
        segs = norm_segs(I.force(src, s, consume=False))
        els = lit_els(segs)
        if els is not None and lo.op == 'const' and (hi is NONE or hi.op == 'const'):
            a, b = cval(lo), len(els) if hi is NONE else cval(hi)
            if type(a) is not int or type(b) is not int or a < 0 or b < 0:
                I.do_raise(s, mk('exc', 'ValueError', ()), node, fr)
            out, rest = segs[a:b], segs[max(a, b):]
        else:
            ix = indexable(segs)
            if ix is None or lo is not ZERO or kind(hi) != 'int':
                raise _U('islice of an irregular sequence')
            n, f = ix
            if s.decide(ge0(hi)) is not True:
                I.raise_if(s, not_(ge0(hi)), 'ValueError', node, fr)
            m = s.simp(min_(n, hi))
            b, c = fresh_bv(), fresh_bv()
            out = (('gen', b, m, (('el', f(b)),)),)
            rest = (('gen', c, s.simp(sub(n, m)), (('el', f(add(c, m))),)),)
        s.heap[src.args[0]] = ('iter', tuple(rest), s.heap[src.args[0]][2])
        return out
    return I.new_thunk(st, forced)


def b_chain_fi(I, args, kw, fr, st, node):
    return I.new_thunk(st, lambda s: flatten(I, args[0], fr, s, node))


def b_counter(I, args, kw, fr, st, node):
    if not args:
        return I.alloc(st, 'dict', (), ('counter',))
    a = args[0]
    o = I.obj(st, a)
    if a.op == 'counter':
        return a
    if (o is not None and o[0] == 'dict') or kind(a) == 'dict':
        x = I.freeze(a, st)
        while x.op == 'copyof':
            x = x.args[1]
        if x.op == 'frz' and x.args[0] == 'dict' and len(x.args[1]) == 1 and x.args[1][0][0] == 'spl':
            x = x.args[1][0][1]
        return x if x.op == 'counter' else mk('counter', (('map', x),), kind='dict')
    segs = iter_segs(I, a, st, fr, node)
    return mk('counter', norm_segs(I._frz_arg(tuple(segs), st, fr, ())), kind='dict')


def b_defaultdict(I, args, kw, fr, st, node):
    ds = tuple(dict_segs(I, args[1], fr, st, node)) if len(args) > 1 else ()
    return I.alloc(st, 'dict', ds, ('default', args[0]) if args else None)


def b_namedtuple(I, args, kw, fr, st, node):
    from .interp import Cls
    name = cval(args[0])
    segs = iter_segs(I, args[1], st, fr, node)
    els = lit_els(segs)
    if len(els) == 1 and els[0].op == 'const' and (' ' in cval(els[0]) or ',' in cval(els[0])):
        els = [const(x) for x in cval(els[0]).replace(',', ' ').split()]
    if args[1].op == 'const':
        els = [const(x) for x in cval(args[1]).replace(',', ' ').split()]
    fields = [cval(e) for e in els]
    qual = fr.module.name + ':' + name + '@nt' + str(abs(hash(tuple(fields))) % 10 ** 6)
    if qual not in I.classes:
        c = Cls(name, fr.module, [], {}, None, [])
        c.fields = fields
        c.id = qual
        I.classes[qual] = c
    return mk('cls', qual)


def nt_new(I, ct, c, args, kw, fr, st, node):
    d = {}
    if any(a.op == 'star' for a in args):
        raise _U('*args to a namedtuple')
    if '**' in kw:
        raise _U('** to a namedtuple')
    for f, a in zip(c.fields, args):
        d[f] = a
    for k, v in kw.items():
        if k not in c.fields or k in d:
            I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
        d[k] = v
    if len(args) > len(c.fields) or set(d) != set(c.fields):
        I.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
    return I.alloc(st, 'inst', d, ct)


def nt_attr(I, b, o, name):
    if name == '_fields':
        return tup(*[const(f) for f in I.classes[o[2].args[0]].fields])
    return mk('meth', b, name)


def b_partial(I, args, kw, fr, st, node):
    return mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))


def b_attrgetter(I, args, kw, fr, st, node):
    return mk('attrgetter', tuple(cval(a) for a in args))


def b_itemgetter(I, args, kw, fr, st, node):
    return mk('itemgetter', tuple(args))


def b_deepcopy(I, args, kw, fr, st, node):
    return copy_value(I, args[0], st, True)


def b_copy(I, args, kw, fr, st, node):
    return copy_value(I, args[0], st, False)


def b_callable(I, args, kw, fr, st, node):
    return mk('callable', I.freeze(args[0], st), kind='bool')


def b_abs(I, args, kw, fr, st, node):
    return mk('abs', args[0], kind=kind(args[0]))


def b_slice(I, args, kw, fr, st, node):
    raise _U('slice()')


def b_id(I, args, kw, fr, st, node):
    return mk('id', args[0], kind='int')


def b_reduce(I, args, kw, fr, st, node):
    raise _U('reduce')


def b_object(I, args, kw, fr, st, node):
    I.refc += 1
    return mk('sym', 'object#%d' % I.refc, None, False, '', False, False)


BUILTINS = {
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map, 'filter': b_filter,
    'sorted': b_sorted, 'reversed': b_reversed, 'list': b_list, 'tuple': b_tuple, 'set': b_set, 'frozenset': b_set,
    'dict': b_dict, 'str': b_str, 'int': b_int, 'float': b_float, 'bool': b_bool, 'isinstance': b_isinstance,
    'type': b_type, 'any': b_any, 'all': b_all, 'sum': b_sum, 'min': b_minmax('min'), 'max': b_minmax('max'),
    'iter': b_iter, 'next': b_next, 'hash': b_hash, 'repr': b_repr, 'print': b_print, 'getattr': b_getattr,
    'hasattr': b_hasattr, 'setattr': b_setattr, 'callable': b_callable, 'abs': b_abs, 'slice': b_slice, 'id': b_id,
    'itertools.product': b_product, 'itertools.islice': b_islice, 'itertools.chain': b_chain, 'itertools.chain.from_iterable': b_chain_fi, 'collections.Counter': b_counter,
    'collections.defaultdict': b_defaultdict, 'collections.OrderedDict': b_dict, 'collections.namedtuple': b_namedtuple,
    'functools.partial': b_partial, 'operator.attrgetter': b_attrgetter, 'operator.itemgetter': b_itemgetter,
    'copy.deepcopy': b_deepcopy, 'copy.copy': b_copy, 'functools.reduce': b_reduce, 'object': b_object,
}


# ------------------------------------------------------------------ methods
def call_meth(I, b, name, args, kw, fr, st, node):
    if b.op == 'ite':
        return I.branch(st, b.args[0], lambda s: call_str_or(I, b.args[1], name, args, kw, fr, s, node),
                        lambda s: call_str_or(I, b.args[2], name, args, kw, fr, s, node))
    o = I.obj(st, b)
    if o is not None:
        k, d, m = o
        if k == 'list':
            return meth_list(I, b, d, name, args, kw, fr, st, node)
        if k == 'dict':
            return meth_dict(I, b, d, m, name, args, kw, fr, st, node)
        if k == 'set':
            return meth_set(I, b, d, name, args, kw, fr, st, node)
        if k == 'iter':
            if name == '__next__':
                return b_next(I, [b] + args, kw, fr, st, node)
            if name == '__iter__':
                return b
            if name == 'close':
                return NONE
        if k == 'inst':
            c = I.classes[m.args[0]]
            if c.fields is not None:
                if name == '_replace':
                    nd = dict(d)
                    nd.update(kw)
                    return I.alloc(st, 'inst', nd, m)
                if name == '_asdict':
                    return I.new_dict(st, [('kv', const(f), d[f]) for f in c.fields])
            if name == '__repr__' or name == '__str__':
                return mk('repr', I.freeze(b, st), kind='str')
            if name == '__eq__':
                return identical(I, b, args[0], st)
            if name == '__hash__':
                return mk('hash', I.freeze(b, st), kind='int')
            if name == '__ne__':
                return not_(as_bool(py_eq(I, b, args[0], fr, st, node)))
            if name == '__init__':
                return NONE
        raise _U('method %s of %s' % (name, k))
    if b is NONE:
        if name in ('__repr__', '__str__'):
            return const('None')
        I.do_raise(st, mk('exc', 'AttributeError', (const(name),)), node, fr)
    if kind(b) == 'str':
        return call_str(I, b, name, args, kw, fr, st, node)
    if b.op == 'tup':
        if name in ('index', 'count'):
            return mk('app', mk('ext', 'tuple.' + name), (I.freeze(b, st),) + tuple(I.freeze(a, st) for a in args), ())
        if name == '__repr__':
            return repr_(I, b, fr, st)
        if name == '__len__':
            return seq_len(b.args[0])
        if name == '__getitem__':
            return get_item(I, b, args[0], fr, st, node)
        if name == '__iter__':
            return I.new_iter(st, b.args[0])
        if name == '__contains__':
            return contains(I, args[0], b, fr, st, node)
    if b.op == 'frz':
        if b.args[0] == 'dict':
            return meth_dict(I, b, b.args[1], None, name, args, kw, fr, st, node)
        if b.args[0] == 'list':
            if name in ('copy', 'index', 'count', '__len__', '__getitem__', '__iter__', '__contains__'):
                return meth_list(I, b, b.args[1], name, args, kw, fr, st, node)
    if name in ('__repr__', '__str__') and kind(b) is not None:
        return repr_(I, b, fr, st)
    if name in ('__iter__',):
        return I.new_iter(st, iter_segs(I, b, st, fr, node))
    if name in ('__contains__',):
        return contains(I, args[0], b, fr, st, node)
    if name in ('__getitem__',):
        return get_item(I, b, args[0], fr, st, node)
    if name in ('__len__',):
        return length(I, b, fr, st, node)
    if kind(b) == 'dict' or name in ('items', 'keys', 'values'):
        r = meth_opaque_dict(I, b, name, args, kw, fr, st, node)
        if r is not None:
            return r
    return I.opaque_call(attr(b, name), args, kw, fr, st, node)


def meth_opaque_dict(I, b, name, args, kw, fr, st, node):
    p = _plain(b)
    if name == 'items' and not args:
        return I.new_iter(st, (('spl', items_(p)),)) if False else items_(p)
    if name == 'keys' and not args:
        return keys_(p)
    if name == 'values' and not args:
        return values_(p)
    if name == 'get' and args:
        k = I.freeze(args[0], st)
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        c = in_dict(k, p)
        if c is TRUE:
            return item(p, k)
        return ite(c, item(p, k), d)
    if name == 'copy' and not args:
        if kind(b) == 'dict':
            return I.new_dict(st, (('spl', b),))
        return mk('copyof', 'shallow', p, kind=kind(b))
    if name == 'most_common':
        return mk('most_common', b, tuple(I.freeze(a, st) for a in args), kind='list')
    if name in ('update', 'pop', 'clear', 'setdefault', 'popitem', '__setitem__', '__delitem__'):
        I.log(st, const('mutate'), I.freeze(b, st), const(name), tup(*[I.freeze(a, st) for a in args]))
        return NONE if name in ('update', 'clear') else mk('app', attr(b, name), tuple(I.freeze(a, st) for a in args), ())
    return None


def meth_list(I, b, d, name, args, kw, fr, st, node):
    if name in ('copy',):
        return I.new_list(st, d)
    if name == '__len__':
        return seq_len(d)
    if name == '__getitem__':
        return get_item(I, b, args[0], fr, st, node)
    if name == '__iter__':
        return I.new_iter(st, d)
    if name == '__contains__':
        return contains(I, args[0], b, fr, st, node)
    if name in ('index', 'count'):
        return mk('app', mk('ext', 'list.' + name), (I.freeze(b, st),) + tuple(I.freeze(a, st) for a in args), (), kind='int')
    if name in ('__repr__', '__str__'):
        return repr_(I, b, fr, st)
    if b.op != 'ref':
        raise _U('mutation of a per-iteration list')
    if name == 'append':
        I.list_set(st, b, d + (('el', args[0]),))
        return NONE
    if name == 'extend' or name == '__iadd__':
        segs = iter_segs(I, args[0], st, fr, node)
        d = I.obj(st, b)[1]
        I.list_set(st, b, d + tuple(segs))
        return NONE if name == 'extend' else b
    if name == 'insert':
        if args[0] is ZERO:
            I.list_set(st, b, (('el', args[1]),) + d)
            return NONE
        els = lit_els(d)
        if els is not None and args[0].op == 'const':
            els = list(els)
            els.insert(cval(args[0]), args[1])
            I.list_set(st, b, tuple(('el', e) for e in els))
            return NONE
        raise _U('list.insert')
    if name == 'pop':
        i = args[0] if args else const(-1)
        segs = list(norm_segs(d))
        if i.op == 'const' and segs:
            if cval(i) == -1 and segs[-1][0] == 'el':
                e = segs.pop()
                I.list_set(st, b, tuple(segs))
                return e[1]
            if cval(i) >= 0 and all(s[0] == 'el' for s in segs[:cval(i) + 1]) and len(segs) > cval(i):
                e = segs.pop(cval(i))
                I.list_set(st, b, tuple(segs))
                return e[1]
        if i is ZERO or i is const(-1):
            n = seq_len(d)
            I.raise_if(st, eq(n, ZERO), 'IndexError', node, fr)
            whole = I.new_list(st, d)
            e = get_item(I, whole, i, fr, st, node)
            rest = get_slice(I, whole, ONE if i is ZERO else NONE, NONE if i is ZERO else const(-1), NONE, fr, st, node)
            I.list_set(st, b, iter_segs(I, rest, st, fr, node))
            return e
        raise _U('list.pop')
    if name == 'reverse':
        I.list_set(st, b, tuple(rev_segs(d)))
        return NONE
    if name == 'sort':
        I.list_set(st, b, (('spl', make_sorted(I, d, kw, fr, st, node)),))
        return NONE
    if name == 'clear':
        I.list_set(st, b, ())
        return NONE
    if name == '__setitem__':
        set_item(I, b, args[0], args[1], fr, st, node)
        return NONE
    raise _U('list.%s' % name)


def meth_dict(I, b, d, m, name, args, kw, fr, st, node):
    if name in ('get',):
        dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
        return dict_lookup(I, d, args[0], fr, st, node, lambda s: dflt)
    if name in ('items',):
        return I.alloc(st, 'list', ditems(I, d, st))
    if name in ('keys', '__iter__'):
        return I.alloc(st, 'list', dkeys(d))
    if name == 'values':
        return I.alloc(st, 'list', dvalues(I, d, st))
    if name == 'copy':
        return I.alloc(st, 'dict', d, m)
    if name == '__getitem__':
        return get_item(I, b, args[0], fr, st, node)
    if name == '__contains__':
        return dsegs_has(I, args[0], d, fr, st, node)
    if name == '__len__':
        return dict_len(I, d, st)
    if name in ('__repr__', '__str__'):
        return repr_(I, b, fr, st)
    if name == 'most_common':
        return mk('most_common', I.freeze(b, st), tuple(I.freeze(a, st) for a in args), kind='list')
    if b.op != 'ref':
        raise _U('mutation of a per-iteration dict')
    if name == 'update':
        ds = tuple(dict_segs(I, args[0], fr, st, node)) if args else ()
        ds += tuple(('kv', const(k), v) for k, v in kw.items())
        st.heap[b.args[0]] = ('dict', norm_dict(d + ds), m)
        return NONE
    if name == 'setdefault':
        dflt = args[1] if len(args) > 1 else NONE
        has = dsegs_has(I, args[0], d, fr, st, node)

        def absent(s):
            set_item(I, b, args[0], dflt, fr, s, node)
            return dflt
        return I.branch(st, has, lambda s: get_item(I, b, args[0], fr, s, node), absent)
    if name == 'clear':
        st.heap[b.args[0]] = ('dict', (), m)
        return NONE
    if name == 'pop':
        dflt = args[1] if len(args) > 1 else None
        if all(x[0] == 'kv' and x[1].op == 'const' for x in d) and args[0].op == 'const':
            for x in d:
                if x[1] is args[0]:
                    st.heap[b.args[0]] = ('dict', tuple(y for y in d if y is not x), m)
                    return x[2]
            if dflt is not None:
                return dflt
            I.do_raise(st, mk('exc', 'KeyError', ()), node, fr)
        raise _U('dict.pop')
    if name == '__setitem__':
        set_item(I, b, args[0], args[1], fr, st, node)
        return NONE
    raise _U('dict.%s' % name)


def meth_set(I, b, d, name, args, kw, fr, st, node):
    if name == 'copy':
        return I.alloc(st, 'set', d)
    if name == '__contains__':
        return segs_contains(I, args[0], d, fr, st, node)
    if name == 'union':
        out = tuple(d)
        for a in args:
            out += tuple(x for x in iter_segs(I, a, st, fr, node) if x not in out)
        return I.alloc(st, 'set', out)
    if name in ('__iter__',):
        return I.new_iter(st, d)
    if b.op != 'ref':
        raise _U('mutation of a per-iteration set')
    if name == 'add':
        s = ('el', args[0])
        if s not in d:
            st.heap[b.args[0]] = ('set', d + (s,), None)
        return NONE
    if name == 'update':
        out = tuple(d)
        for a in args:
            out += tuple(x for x in iter_segs(I, a, st, fr, node) if x not in out)
        st.heap[b.args[0]] = ('set', out, None)
        return NONE
    if name == 'clear':
        st.heap[b.args[0]] = ('set', (), None)
        return NONE
    raise _U('set.%s' % name)
