"""Hash-consed value-flow terms and their normal forms.

A term denotes the value a program expression has, as a function of the inputs the
analysis left symbolic.  Terms are immutable and interned (structural equality is
identity), joins are gated (``ite``), integers are kept in affine normal form, string
concatenation is flattened, sequences are lists of *segments*.

Segments (elements of list / tuple / iterator payloads):
    ('el', t)              one element
    ('spl', t)             all elements of the opaque sequence t, in order
    ('gs', c, segs)        segs, present only when condition c holds
    ('gen', bv, n, segs)   segs(bv) for bv = 0 .. n-1
"""
import sys
sys.setrecursionlimit(20000)


class T(object):
    __slots__ = ('op', 'args', '_h', 'kind', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h


_table = {}


def mk(op, *args, kind=None):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._h = hash(key)
        t.kind = kind
        _table[key] = t
    return t


# ------------------------------------------------------------------ constants
class _Special(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NOTIMPL = _Special('NotImplemented')


def const(v):
    # bool/int/float constants must not be confused (True == 1 in a hash table)
    k = ('bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'float' if isinstance(v, float) else
         'str' if isinstance(v, str) else 'none' if v is None else 'bytes' if isinstance(v, bytes) else 'special')
    return mk('const', k, v, kind=k)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
NOTIMPLEMENTED = const(NOTIMPL)
ZERO = const(0)
ONE = const(1)
UNDEF = mk('undef')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[1]


def is_int_const(t):
    return t.op == 'const' and t.args[0] in ('int', 'bool')


# ------------------------------------------------------------------ symbols
class SymInfo(object):
    __slots__ = ('nullable', 'excl', 'nonempty', 'nonneg', 'values', 'char')

    def __init__(self, nullable=False, excl='', nonempty=False, nonneg=False, values=None, char=False):
        self.nullable = nullable
        self.excl = excl
        self.nonempty = nonempty
        self.nonneg = nonneg
        self.values = values
        self.char = char


_syminfo = {}


def sym(name, kind=None, nullable=False, excl='', nonempty=False, nonneg=False, values=None, char=False):
    """char: a text of exactly one character"""
    t = mk('sym', name, kind, nullable, excl, nonempty or char, nonneg, kind=kind if not nullable else None)
    _syminfo[t] = (kind, SymInfo(nullable, excl, nonempty or char, nonneg, values, char))
    return t


def chars_of(t):
    """the characters of a text whose length is known, or None"""
    if t.op == 'const':
        return [const(c) for c in cval(t)] if isinstance(cval(t), str) else None
    if t.op == 'sym':
        i = info(t)
        return [t] if i is not None and i.char else None
    if t.op == 'cat':
        out = []
        for p in t.args:
            c = chars_of(p)
            if c is None:
                return None
            out += c
        return out
    return None


def info(t):
    return _info(t)[1]


def symkind(t):
    """kind of a nullable symbol when it is not None"""
    return _info(t)[0]


ATTR_KINDS = {}     # attribute name -> (kind, nullable)


def attr(x, name):
    k, n = ATTR_KINDS.get(name, (None, False))
    t = mk('attr', x, name, kind=k if not n else None)
    return t


def _info(t):
    r = _syminfo.get(t)
    if r is None:
        r = (None, None)
        if t.op == 'attr':
            k, n = ATTR_KINDS.get(t.args[1], (None, False))
            if k or n:
                r = _syminfo[t] = (k, SymInfo(nullable=n))
    return r


def kind(t):
    if t.kind is not None:
        return t.kind
    op = t.op
    if op == 'ite':
        a, b = kind(t.args[1]), kind(t.args[2])
        return a if a == b else None
    if op == 'obj':
        return 'obj'
    return None


# ------------------------------------------------------------------ ints
def lin_parts(t):
    """affine view: (constant, {atom: coef}) or None if t is not known to be an int"""
    if t.op == 'const' and t.args[0] in ('int', 'bool'):
        return int(t.args[1]), {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    if kind(t) in ('int', 'bool') or symkind(t) == 'int':
        return 0, {t: 1}
    return None


def nullable(t):
    return symkind(t) is not None and kind(t) is None


def mk_lin(c, d):
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: skey(x[0]))
    return mk('lin', c, tuple(items), kind='int')


_keys = {}


def skey(t):
    """deterministic ordering key of a term (independent of memory addresses)"""
    k = _keys.get(t)
    if k is None:
        k = (t.op,) + tuple(_akey(a) for a in t.args)
        k = repr(k)
        if len(k) > 200:
            import hashlib
            k = k[:40] + hashlib.md5(k.encode()).hexdigest()
        _keys[t] = k
    return k


def _akey(a):
    if isinstance(a, T):
        return skey(a)
    if isinstance(a, tuple):
        return tuple(_akey(x) for x in a)
    return repr(a)


def add(a, b, sub=False):
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is not None and pb is not None:
        s = -1 if sub else 1
        d = pa[1]
        for k, v in pb[1].items():
            d[k] = d.get(k, 0) + s * v
        return mk_lin(pa[0] + s * pb[0], d)
    if a.op == 'ite' and (kind(a) is None or kind(a) in ('int',)):
        return ite(a.args[0], add(a.args[1], b, sub), add(a.args[2], b, sub))
    if b.op == 'ite':
        return ite(b.args[0], add(a, b.args[1], sub), add(a, b.args[2], sub))
    if a.op == 'const' and b.op == 'const':
        try:
            return const(cval(a) - cval(b) if sub else cval(a) + cval(b))
        except TypeError:
            pass
    if not sub and kind(a) == 'str' and kind(b) == 'str':
        return cat(a, b)
    fl = 'float' in (kind(a), kind(b)) and {kind(a), kind(b)} <= {'float', 'int'}
    return mk('sub' if sub else 'add', a, b, kind='float' if fl else None)


def sub(a, b):
    return add(a, b, True)


def neg(a):
    return sub(ZERO, a)


def mul(a, b):
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is not None and pb is not None:
        if not pa[1]:
            return mk_lin(pa[0] * pb[0], {k: v * pa[0] for k, v in pb[1].items()})
        if not pb[1]:
            return mk_lin(pa[0] * pb[0], {k: v * pb[0] for k, v in pa[1].items()})
    if a.op == 'const' and b.op == 'const' and kind(a) in ('int', 'float') and kind(b) in ('int', 'float'):
        return const(cval(a) * cval(b))
    x, y = (a, b) if skey(a) <= skey(b) else (b, a)
    kk = {kind(a), kind(b)}
    return mk('mul', x, y, kind='int' if kk == {'int'} else 'float' if kk <= {'int', 'float'} else None)


def div(a, b):
    if a.op == 'const' and b.op == 'const' and isinstance(cval(a), (int, float)) and isinstance(cval(b), (int, float)) \
            and cval(b) != 0:
        return const(cval(a) / cval(b))
    return mk('div', a, b, kind='float')


# ------------------------------------------------------------------ strings
def cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'const' and cval(p) == '':
            continue
        if res and p.op == 'const' and res[-1].op == 'const':
            res[-1] = const(cval(res[-1]) + cval(p))
        elif res and p.op == 'slice' and res[-1].op == 'slice' and p.args[0] is res[-1].args[0] \
                and p.args[1] is res[-1].args[2] and p.args[1] is not NONE:
            # x[a:m] + x[m:b]  ==  x[a:b]   (0 <= a <= m <= b recorded as a side condition when built)
            m = slice_(p.args[0], res[-1].args[1], p.args[2])
            res[-1] = m
        else:
            res.append(p)
    if not res:
        return const('')
    if len(res) == 1:
        return res[0]
    return mk('cat', *res, kind='str')


def slice_(x, lo, hi, step=NONE):
    if lo is ZERO:
        lo = NONE
    if step.op == 'const' and cval(step) in (None, 1):
        step = NONE
        if lo is NONE and hi is NONE and kind(x) == 'str':
            return x
        if kind(x) == 'str' and hi.op == 'len' and hi.args[0] is x:
            hi = NONE
            if lo is NONE:
                return x
    if x.op == 'const' and all(q.op == 'const' for q in (lo, hi, step)):
        return const(cval(x)[cval(lo):cval(hi):cval(step)])
    return mk('slice', x, lo, hi, step, kind=kind(x) if kind(x) in ('str', 'list', 'tuple', 'seq') else None)


def to_str(x):
    if x.op == 'const':
        if x.args[0] in ('int', 'str', 'none', 'bool', 'float'):
            return const(str(cval(x)))
        return mk('str', x, kind='str')
    if kind(x) == 'str':
        return x
    if x.op == 'ite':
        return ite(x.args[0], to_str(x.args[1]), to_str(x.args[2]))
    if x.op == 'sym' and symkind(x) == 'str' and info(x).nullable:
        return ite(eq(x, NONE), const('None'), x)
    return mk('str', x, kind='str')


# ------------------------------------------------------------------ booleans
def is_bool(t):
    return kind(t) == 'bool'


_notc = {}


def not_(c):
    r = _notc.get(c)
    if r is None:
        r = _notc[c] = _not(c)
    return r


def _not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'ge0':
        # not (e >= 0)  <=>  -e - 1 >= 0
        return ge0(sub(const(-1), c.args[0]))
    if c.op == 'and':
        return or_(*[not_(x) for x in c.args])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.args])
    if c.op == 'exists':
        return mk('forall', c.args[0], c.args[1], not_(c.args[2]), kind='bool')
    if c.op == 'forall':
        return mk('exists', c.args[0], c.args[1], not_(c.args[2]), kind='bool')
    if c.op == 'ite' and is_bool(c):
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk('not', c, kind='bool')


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    return out


def and_(*cs):
    out = []
    seen = set()
    for c in _flat('and', cs):
        if c is TRUE or c in seen:
            continue
        if c is FALSE or not_(c) in seen:
            return FALSE
        seen.add(c)
        out.append(c)
    # absorb: a and (not a or b) -> a and b
    res = []
    for c in out:
        if c.op == 'or':
            if any(x in seen for x in c.args):
                continue
            rest = [x for x in c.args if not_(x) not in seen]
            if len(rest) < len(c.args):
                return and_(*([x for x in out if x is not c] + [or_(*rest)]))
        res.append(c)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    res.sort(key=skey)
    return mk('and', *res, kind='bool')


def or_(*cs):
    out = []
    seen = set()
    for c in _flat('or', cs):
        if c is FALSE or c in seen:
            continue
        if c is TRUE or not_(c) in seen:
            return TRUE
        seen.add(c)
        out.append(c)
    res = []
    for c in out:
        if c.op == 'and':
            if any(x in seen for x in c.args):
                continue
            rest = [x for x in c.args if not_(x) not in seen]
            if len(rest) < len(c.args):
                return or_(*([x for x in out if x is not c] + [and_(*rest)]))
        res.append(c)
    # (a and X) or (not a and X) -> X
    for i in range(len(res)):
        for j in range(i + 1, len(res)):
            a = set(res[i].args) if res[i].op == 'and' else {res[i]}
            b = set(res[j].args) if res[j].op == 'and' else {res[j]}
            da, db = a - b, b - a
            if len(da) == 1 and len(db) == 1 and not_(next(iter(da))) is next(iter(db)):
                rest = res[:i] + res[i + 1:j] + res[j + 1:] + [and_(*sorted(a & b, key=skey))]
                return or_(*rest)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    res.sort(key=skey)
    return mk('or', *res, kind='bool')


def ge0(e):
    """e >= 0 for an int term"""
    p = lin_parts(e)
    if p is not None:
        c, d = p
        if not d:
            return TRUE if c >= 0 else FALSE
        from math import gcd
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g > 1:
            c = c // g          # floor keeps e >= 0 <=> e/g >= 0 over the integers
            d = {k: v // g for k, v in d.items()}
        e = mk_lin(c, d)
        if all(v > 0 for v in d.values()) and all(nonneg_atom(a) for a in d) and c + sum(v * atom_min(a) for a, v in d.items()) >= 0:
            return TRUE
        if all(v < 0 for v in d.values()) and all(nonneg_atom(a) for a in d) and c + sum(v * atom_min(a) for a, v in d.items()) < 0:
            return FALSE
    return mk('ge0', e, kind='bool')


def nonneg_atom(a):
    if a.op in ('len', 'bv', 'first', 'count'):
        return True
    if a.op == 'sym':
        i = info(a)
        return bool(i and i.nonneg)
    if kind(a) == 'bool':
        return True
    if a.op == 'min':
        return nonneg(a.args[0]) and nonneg(a.args[1])
    if a.op == 'max':
        return nonneg(a.args[0]) or nonneg(a.args[1])
    if a.op == 'modulo':
        return True
    if a.op == 'sum':
        return nonneg(a.args[2])
    if a.op == 'ite':
        return nonneg(a.args[1]) and nonneg(a.args[2])
    return False


def atom_min(a):
    """least value of a nonnegative atom"""
    return min_len(a.args[0]) if a.op == 'len' and kind(a.args[0]) == 'str' else 0


def nonneg(t):
    p = lin_parts(t)
    if p is None:
        return False
    c, d = p
    return all(v > 0 and nonneg_atom(a) for a, v in d.items()) and c + sum(v * atom_min(a) for a, v in d.items()) >= 0


def lt(a, b):
    return _cmp(a, b, 'lt')


def le(a, b):
    return _cmp(a, b, 'le')


def _prefix_cmp(a, b):
    """a < b as far as the constant beginnings of two texts decide it (then a <= b is the same)"""
    p, q = [cval(x) if x.op == 'const' else cval(x.args[0]) if x.op == 'cat' and x.args[0].op == 'const' else '' for x in (a, b)]
    for x, y in zip(p, q):
        if x != y:
            return x < y
    return None


def const_tuple(t):
    """a tuple of constants, or None"""
    if any(x[0] != 'el' or x[1].op != 'const' for x in t.args[0]):
        return None
    return tuple(cval(x[1]) for x in t.args[0])


def _cmp(a, b, op):
    if a.op == 'ite':
        return ite(a.args[0], _cmp(a.args[1], b, op), _cmp(a.args[2], b, op))
    if b.op == 'ite':
        return ite(b.args[0], _cmp(a, b.args[1], op), _cmp(a, b.args[2], op))
    if kind(a) == 'bool' and kind(b) == 'bool':
        return and_(not_(a), b) if op == 'lt' else or_(not_(a), b)
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is not None and pb is not None:
        d = sub(b, a)
        return ge0(sub(d, ONE) if op == 'lt' else d)
    if a.op == 'const' and b.op == 'const':
        try:
            return const(cval(a) < cval(b) if op == 'lt' else cval(a) <= cval(b))
        except TypeError:
            return mk('poison', 'TypeError in comparison', kind='bool')
    if a.op == 'tup' and b.op == 'tup':
        x, y = const_tuple(a), const_tuple(b)
        if x is not None and y is not None:
            try:
                return const(x < y if op == 'lt' else x <= y)
            except TypeError:
                return mk('poison', 'TypeError in comparison', kind='bool')
    if kind(a) == 'str' and kind(b) == 'str':
        d = _prefix_cmp(a, b)
        if d is not None:
            return const(d)
    if op == 'le':
        return not_(mk('lt', b, a, kind='bool'))
    return mk('lt', a, b, kind='bool')


NON_NONE = {'ref', 'iref', 'obj', 'tup', 'cls', 'fn', 'bm', 'ext', 'frz', 'mod'}


def never_none(t):
    if t.op == 'const':
        return cval(t) is not None
    if kind(t) is not None and kind(t) != 'none':
        return True
    return t.op in NON_NONE


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite':
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == 'const' and b.op == 'const':
        try:
            return const(bool(cval(a) == cval(b)))
        except Exception:
            return FALSE
    if a.op == 'cls' and b.op == 'cls':
        return FALSE    # classes are compared by identity
    if (a is NONE and never_none(b)) or (b is NONE and never_none(a)):
        return FALSE
    ka, kb = kind(a), kind(b)
    if ka and kb and ka != kb and not ({ka, kb} <= {'int', 'bool', 'float'}) and 'obj' not in (ka, kb) \
            and 'seq' not in (ka, kb):
        return FALSE
    if ka == 'bool' and kb == 'bool':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is not None and pb is not None and not (nullable(a) and nullable(b)):
        d = sub(a, b)
        p = lin_parts(d)
        if not p[1]:
            return TRUE if p[0] == 0 else FALSE
        if nonneg(sub(d, ONE)) or nonneg(sub(neg(d), ONE)):
            return FALSE
        # sign-normalised
        items = sorted(p[1].items(), key=lambda x: skey(x[0]))
        if items[0][1] < 0:
            d = neg(d)
        return mk('eq0', d, kind='bool')
    if a.op == 'tup' and b.op == 'tup':
        ea, eb = lit_els(a.args[0]), lit_els(b.args[0])
        if ea is not None and eb is not None:
            if len(ea) != len(eb):
                return FALSE
            return and_(*[eq(x, y) for x, y in zip(ea, eb)])
    if ka == 'str' and kb == 'str':
        r = _str_eq(a, b)
        if r is not None:
            return r
    for x, y in ((a, b), (b, a)):
        if x.op in ('cls', 'fn', 'ext') and y.op in ('cls', 'fn', 'ext', 'const', 'tup'):
            return FALSE
    x, y = (a, b) if skey(a) <= skey(b) else (b, a)
    return mk('eq', x, y, kind='bool')


def _str_eq(a, b):
    if a.op == 'cat' or b.op == 'cat' or a.op == 'const' and len(cval(a)) != 1 or b.op == 'const' and len(cval(b)) != 1:
        x = chars_of(a)
        y = chars_of(b) if x is not None else None
        if y is not None:
            return FALSE if len(x) != len(y) else and_(*[eq(p, q) for p, q in zip(x, y)])
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        s = cval(a)
        if b.op == 'sym':
            i = info(b)
            if i and ((i.nonempty and s == '') or any(ch in i.excl for ch in s)):
                return FALSE
            if i and i.values is not None and s not in i.values:
                return FALSE
        if b.op == 'str' and kind(b.args[0]) == 'int':
            try:
                if str(int(s)) != s:
                    return FALSE
            except ValueError:
                return FALSE
        if b.op == 'cat':
            first, last = b.args[0], b.args[-1]
            if first.op == 'const' and not s.startswith(cval(first)):
                return FALSE
            if last.op == 'const' and not s.endswith(cval(last)):
                return FALSE
            mid = [p for p in b.args if p.op == 'const' and cval(p) not in s]
            if mid:
                return FALSE
            if len(s) < sum(min_len(p) for p in b.args):
                return FALSE
            for p in b.args:
                if p.op == 'str' and kind(p.args[0]) == 'int' and not any(ch.isdigit() for ch in s):
                    return FALSE
    return None


def min_(a, b):
    d = ge0(sub(b, a)) if lin_parts(a) is not None and lin_parts(b) is not None else None
    if d is TRUE:
        return a
    if d is FALSE:
        return b
    if a is b:
        return a
    x, y = (a, b) if skey(a) <= skey(b) else (b, a)
    return mk('min', x, y, kind='int' if kind(a) == kind(b) == 'int' else None)


def max_(a, b):
    d = ge0(sub(a, b)) if lin_parts(a) is not None and lin_parts(b) is not None else None
    if d is TRUE:
        return a
    if d is FALSE:
        return b
    if a is b:
        return a
    x, y = (a, b) if skey(a) <= skey(b) else (b, a)
    return mk('max', x, y, kind='int' if kind(a) == kind(b) == 'int' else None)


def min_len(p):
    if p.op == 'const':
        return len(cval(p))
    if p.op == 'sym':
        i = info(p)
        return 1 if i and i.nonempty else 0
    if p.op == 'str' and kind(p.args[0]) == 'int':
        return 1
    if p.op == 'cat':
        return sum(min_len(q) for q in p.args)
    return 0


def lacks_char(p, ch):
    """string term p certainly does not contain character ch"""
    if p.op == 'const':
        return ch not in cval(p)
    if p.op == 'sym':
        i = info(p)
        return bool(i and ch in i.excl)
    if p.op == 'str' and kind(p.args[0]) in ('int', 'bool'):
        if ch.isdigit():
            return False
        return ch != '-' or nonneg(p.args[0])
    if p.op == 'cat':
        return all(lacks_char(q, ch) for q in p.args)
    if p.op == 'ite':
        return lacks_char(p.args[1], ch) and lacks_char(p.args[2], ch)
    if p.op in ('slice', 'strm') and kind(p) == 'str':
        if p.op == 'slice':
            return lacks_char(p.args[0], ch)
        if p.args[0] in ('lower', 'strip', 'rstrip', 'lstrip') and not ch.isalpha():
            return lacks_char(p.args[1], ch)
    if p.op == 'item' and kind(p) == 'str':
        return lacks_char(p.args[0], ch)
    if p.op == 'sjoin':
        return lacks_char(p.args[0], ch) and segs_lack(p.args[1], ch)
    return False


def segs_lack(segs, ch):
    for s in segs:
        if s[0] == 'el' and not lacks_char(s[1], ch):
            return False
        if s[0] == 'spl':
            if not (s[1].op == 'sorted' and segs_lack(s[1].args[0], ch)):
                return False
        if s[0] == 'gs' and not segs_lack(s[2], ch):
            return False
        if s[0] == 'gen' and not segs_lack(s[3], ch):
            return False
    return True


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ge0':
        n = not_(c)
        if n.op == 'ge0' and skey(n) < skey(c):
            return ite_(n, b, a)
    if c.op in ('forall', 'and'):
        return ite_(not_(c), b, a)
    return ite_(c, a, b)


def ite_(c, a, b):
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    # ite(p or q, a, ite(p or r, x, y)) -> ite(p or q, a, ite(r, x, y))
    if b.op == 'ite' and b.args[0].op == 'or':
        known = set(c.args) if c.op == 'or' else {c}
        if not known.isdisjoint(b.args[0].args):
            b = ite(or_(*[x for x in b.args[0].args if x not in known]), b.args[1], b.args[2])
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if kind(a) == 'bool' and kind(b) == 'bool':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    # ite(x == k, x, b) -> ite(x == k, k, b)
    if c.op == 'eq' and a in c.args and a.op != 'const':
        o = c.args[1] if c.args[0] is a else c.args[0]
        if o is NONE or (o.op == 'const' and isinstance(cval(o), str) and kind(a) == 'str'):
            return ite(c, o, b)
    # ite(x == k, k, x) -> x
    if c.op in ('eq', 'eq0'):
        if c.op == 'eq' and set(c.args) == {a, b} and a.op == 'const':
            return b
    # ite(x == k, e[k], e[x]) -> e[x] for a linear e
    if c.op == 'eq0' and a.op == 'const' and b.op in ('lin', 'sym'):
        p, q = lin_parts(c.args[0]), lin_parts(b)
        if p is not None and q is not None and len(p[1]) == 1 and len(q[1]) == 1:
            (x, k), (y, m) = list(p[1].items())[0], list(q[1].items())[0]
            if x is y and p[0] % k == 0 and const(q[0] - m * (p[0] // k)) is a:
                return b
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    ka, kb = kind(a), kind(b)
    return mk('ite', c, a, b, kind=ka if ka == kb else None)


def exists(bv, n, c):
    if n.op == 'max' and ZERO in n.args:
        n = n.args[1] if n.args[0] is ZERO else n.args[0]
    if c is FALSE:
        return FALSE
    if c is TRUE:
        return ge0(sub(n, ONE))
    if c.op == 'or':
        return or_(*[exists(bv, n, x) for x in c.args])
    if n.op == 'const':
        if cval(n) <= 0:
            return FALSE
        if cval(n) <= 4:
            return or_(*[subst(c, {bv: const(i)}) for i in range(cval(n))])
    if not occurs(bv, c):
        return and_(c, ge0(sub(n, ONE)))
    if c.op == 'and':
        inv = [x for x in c.args if not occurs(bv, x)]
        if inv:
            return and_(*(inv + [exists(bv, n, and_(*[x for x in c.args if occurs(bv, x)]))]))
    return mk('exists', bv, n, c, kind='bool')


def forall(bv, n, c):
    return not_(exists(bv, n, not_(c)))


# ------------------------------------------------------------------ tuples and sequences
def tup(*items):
    return mk('tup', tuple(('el', t) for t in items), kind='tuple')


def tupseq(segs):
    return mk('tup', norm_segs(segs), kind='tuple')


def lit_els(segs):
    """list of element terms if every segment is a plain element, else None"""
    out = []
    for s in segs:
        if s[0] != 'el':
            return None
        out.append(s[1])
    return out


def seq_len(segs):
    n = ZERO
    for s in segs:
        if s[0] == 'el':
            n = add(n, ONE)
        elif s[0] == 'spl':
            n = add(n, len_(s[1]))
        elif s[0] == 'gs':
            n = add(n, ite(s[1], seq_len(s[2]), ZERO))
        elif s[0] == 'gen':
            inner = seq_len(s[3])
            n = add(n, sum_(s[1], s[2], inner))
    return n


def sum_(bv, n, e):
    if not occurs(bv, e):
        if e is ZERO:
            return ZERO
        p = lin_parts(e)
        if p is not None and not p[1]:
            return mul(n, e) if lin_parts(n) is not None else mk('sum', bv, n, e, kind='int')
        pn = lin_parts(n)
        if pn is not None and not pn[1]:
            return mul(n, e)
    return mk('sum', bv, n, e, kind='int' if kind(e) in ('int', 'bool') else kind(e))


def len_(x):
    if x.op == 'const' and isinstance(cval(x), (str, bytes)):
        return const(len(cval(x)))
    if x.op == 'sym' and kind(x) == 'str' and chars_of(x) is not None:
        return ONE
    if x.op == 'tup':
        return seq_len(x.args[0])
    if x.op == 'frz' and x.args[0] in ('list', 'iter'):
        return seq_len(x.args[1])
    if x.op == 'cat':
        n = ZERO
        for p in x.args:
            n = add(n, len_(p))
        return n
    if x.op == 'ite':
        return ite(x.args[0], len_(x.args[1]), len_(x.args[2]))
    if x.op == 'sorted':
        return seq_len(x.args[0])
    if x.op in ('rev', 'upd'):
        return len_(x.args[0])
    if x.op == 'copyof':
        return len_(x.args[1])
    if x.op == 'items' or x.op == 'keys' or x.op == 'values' or (x.op == 'most_common' and not x.args[1]):
        return mk('len', x.args[0], kind='int')
    if x.op == 'slice' and x.args[3] is NONE:
        b, lo, hi = x.args[0], x.args[1], x.args[2]
        if lo is NONE and nonneg(hi):
            return min_(len_(b), hi)
    return mk('len', x, kind='int')


def texty(x):
    return kind(x) == 'str' or x.op == 'app' and x.args[0].op == 'attr' and x.args[0].args[1] in ('lower', 'upper', 'strip', 'casefold', 'title')


def one_text(v):
    """a choice of texts that is best seen as one text"""
    return all(texty(x) and x.op not in ('const', 'ite') and chars_of(x) is None for x in v.args[1:])


def norm_segs(segs):
    out = []
    for s in segs:
        if s[0] == 'gs':
            if s[1] is FALSE or not s[2]:
                continue
            if s[1] is TRUE:
                out.extend(norm_segs(s[2]))
                continue
            inner = norm_segs(s[2])
            if not inner:
                continue
            if len(inner) == 1 and inner[0][0] == 'gs':
                out.append(('gs', and_(s[1], inner[0][1]), inner[0][2]))
                continue
            # merge complementary gates of single elements: [c? x] [not c? y] -> el ite(c,x,y)
            if out and out[-1][0] == 'gs' and out[-1][1] is not_(s[1]) and len(out[-1][2]) == len(inner) \
                    and lit_els(inner) is not None and lit_els(out[-1][2]) is not None:
                prev = out.pop()
                for (_, x), (_, y) in zip(prev[2], inner):
                    out.append(('el', ite(prev[1], x, y)))
                continue
            out.append(('gs', s[1], inner))
        elif s[0] == 'gen':
            inner = norm_segs(s[3])
            if not inner or s[2] is ZERO:
                continue
            if s[2].op == 'const' and cval(s[2]) <= 0:
                continue
            if s[2] is ONE:
                out.extend(norm_segs(subst_segs(inner, {s[1]: ZERO})))
                continue
            if len(inner) == 1 and inner[0][0] == 'el':
                e = inner[0][1]
                if e.op == 'item' and e.args[1] is s[1] and not occurs(s[1], e.args[0]) and len_(e.args[0]) is s[2]:
                    out.extend(norm_segs([('spl', e.args[0])]))
                    continue
            out.append(('gen', s[1], s[2], inner))
        elif s[0] == 'spl':
            x = s[1]
            if x.op == 'tup':
                out.extend(x.args[0])
            elif x.op == 'frz' and x.args[0] in ('list', 'iter'):
                out.extend(x.args[1])
            elif x.op == 'ite' and not one_text(x):
                out.extend(norm_segs([('gs', x.args[0], (('spl', x.args[1]),)),
                                      ('gs', not_(x.args[0]), (('spl', x.args[2]),))]))
            else:
                out.append(s)
        else:
            out.append(s)
    return tuple(out)


_bvc = [0]


def fresh_bv():
    _bvc[0] += 1
    return mk('bv', _bvc[0], kind='int')


_fc = [0]


def fresh_id():
    _fc[0] += 1
    return _fc[0]


def indexable(segs):
    """(n, f) with f(j) the j-th element, when the sequence has one element per index"""
    segs = norm_segs(segs)
    els = lit_els(segs)
    if els is not None:
        return const(len(els)), lambda j, e=els: _pick(e, j)
    if len(segs) == 1:
        s = segs[0]
        if s[0] == 'spl':
            return len_(s[1]), lambda j, x=s[1]: item(x, j)
        if s[0] == 'gen' and len(s[3]) == 1 and s[3][0][0] == 'el':
            return s[2], lambda j, s=s: subst(s[3][0][1], {s[1]: j})
    return None


def _pick(els, j):
    if j.op == 'const':
        i = cval(j)
        if -len(els) <= i < len(els):
            return els[i]
        return mk('poison', 'index out of range')
    r = mk('poison', 'index out of range')
    for i in reversed(range(len(els))):
        r = ite(eq(j, const(i)), els[i], r) if r.op != 'poison' else els[i]
    return r


ELEM_TYPE = {}     # opaque sequence term -> function(index term) -> element term


def item(x, i):
    if x.op == 'ite':
        return ite(x.args[0], item(x.args[1], i), item(x.args[2], i))
    if i.op == 'ite':
        return ite(i.args[0], item(x, i.args[1]), item(x, i.args[2]))
    if x in ELEM_TYPE:
        return ELEM_TYPE[x](i)
    if x.op == 'attr' and x.args[1] in ELEM_OF:
        return ELEM_OF[x.args[1]](x, i)
    if x.op == 'const' and i.op == 'const' and isinstance(cval(x), str) and isinstance(cval(i), int) \
            and -len(cval(x)) <= cval(i) < len(cval(x)):
        return const(cval(x)[cval(i)])
    if i.op == 'const' and x.op in ('sym', 'cat') and kind(x) == 'str' and isinstance(cval(i), int):
        c = chars_of(x)
        if c is not None and -len(c) <= cval(i) < len(c):
            return c[cval(i)]
    if x.op in ('tup',) or (x.op == 'frz' and x.args[0] in ('list', 'iter')):
        segs = x.args[0] if x.op == 'tup' else x.args[1]
        r = seg_item(segs, i)
        if r is not None:
            return r
    if x.op == 'slice' and x.args[3] is NONE:
        b, lo, hi = x.args[:3]
        if (lo is NONE or nonneg(lo)) and nonneg(i):
            return item(b, add(lo if lo is not NONE else ZERO, i))
    if x.op == 'rev':
        return item(x.args[0], sub(sub(len_(x.args[0]), ONE), i))
    if x.op == 'upd':
        return ite(eq(x.args[1], i), x.args[2], item(x.args[0], i))
    if x.op == 'copyof':
        return item(x.args[1], i)
    if x.op == 'counter':
        return mk('item', x, i, kind='int')
    if x.op == 'values':
        return item(x.args[0], item(mk('keys', x.args[0]), i))
    if x.op == 'item' and x.args[0].op == 'items' and i.op == 'const' and cval(i) in (0, 1):
        k = item(mk('keys', x.args[0].args[0]), x.args[1])
        return k if cval(i) == 0 else item(x.args[0].args[0], k)
    if x.op == 'sorted' and len(x.args[0]) == 1 and x.args[0][0][0] == 'spl' and x.args[0][0][1] in SORTED_ELEM:
        return SORTED_ELEM[x.args[0][0][1]](x, i)
    k = None
    if kind(x) == 'str':
        k = 'str'
    return mk('item', x, i, kind=k)


SORTED_ELEM = {}
ELEM_OF = {}        # attribute name -> function(sequence, index) -> element


def seg_item(segs, i):
    segs = norm_segs(segs)
    p = lin_parts(i)
    if p is not None and p[1] and any(v < 0 for v in p[1].values()) is False and False:
        pass
    if i.op == 'const' and isinstance(cval(i), int):
        k = cval(i)
        if k >= 0:
            for s in segs:
                if s[0] == 'el':
                    if k == 0:
                        return s[1]
                    k -= 1
                else:
                    if k == 0 and s is segs[0]:
                        break
                    break
            els = lit_els(segs)
        else:
            k = -k - 1
            for s in reversed(segs):
                if s[0] == 'el':
                    if k == 0:
                        return s[1]
                    k -= 1
                else:
                    break
            n = seq_len(segs)
            ix = indexable(segs)
            if ix is not None and lit_els(segs) is None:
                return ix[1](add(n, i))
            return None
    ix = indexable(segs)
    if ix is not None:
        return ix[1](i)
    # leading literal elements followed by something indexable, index known to be past them
    return None


# ------------------------------------------------------------------ traversal
def children(t):
    for a in t.args:
        for c in _ch(a):
            yield c


def _ch(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            for c in _ch(x):
                yield c


_occ = {}


def leaves_of(t):
    """set of bv/phi terms occurring in t (memoised)"""
    r = _occ.get(t)
    if r is None:
        if t.op in ('bv', 'phi'):
            r = frozenset([t])
        else:
            s = set()
            for c in children(t):
                s |= leaves_of(c)
            r = frozenset(s)
        _occ[t] = r
    return r


def occurs(v, t):
    return v in leaves_of(t)


def seg_leaves(segs):
    s = set()
    for c in _ch(segs):
        s |= leaves_of(c)
    return s


def subst(t, m, memo=None):
    """replace bv/phi leaves by terms, rebuilding normal forms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if t in m:
        return m[t]
    lv = leaves_of(t)
    if not any(k in lv for k in m):
        return t
    r = memo.get(t)
    if r is None:
        r = rebuild(t, lambda a: _subst_arg(a, m, memo))
        memo[t] = r
    return r


def _subst_arg(a, m, memo):
    if isinstance(a, T):
        return _subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, m, memo) for x in a)
    return a


def subst_segs(segs, m):
    memo = {}
    return norm_segs(_subst_arg(segs, m, memo))


def rebuild(t, f):
    """rebuild t with f applied to its arguments, going through the smart constructors"""
    op = t.op
    a = tuple(f(x) for x in t.args)
    if op == 'lin':
        r = const(a[0])
        for atom, k in a[1]:
            r = add(r, mul(const(k), atom))
        return r
    if op == 'add':
        return add(*a)
    if op == 'sub':
        return sub(*a)
    if op == 'mul':
        return mul(*a)
    if op == 'div':
        return div(*a)
    if op == 'cat':
        return cat(*a)
    if op == 'slice':
        return slice_(*a)
    if op == 'str':
        return to_str(*a)
    if op == 'not':
        return not_(*a)
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'ge0':
        return ge0(*a)
    if op == 'eq0':
        return eq(a[0], ZERO)
    if op == 'eq':
        return eq(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'exists':
        return exists(*a)
    if op == 'forall':
        return forall(*a)
    if op == 'sum':
        return sum_(*a)
    if op == 'len':
        return len_(*a)
    if op == 'item':
        return item(*a)
    if op == 'tup':
        return tupseq(a[0])
    if op == 'frz' and a[0] in ('list', 'iter'):
        return mk('frz', a[0], norm_segs(a[1]), kind=t.kind)
    if op in REBUILD:
        return REBUILD[op](*a)
    return mk(op, *a, kind=t.kind)


REBUILD = {}
BINDERS = ('exists', 'forall', 'first', 'last', 'sum', 'sgen', 'lookup', 'tally', 'fold')


def subst_any(t, m):
    """replace arbitrary subterms"""
    memo = {}

    def go(x):
        if isinstance(x, T):
            if x in m:
                return m[x]
            r = memo.get(x)
            if r is None:
                r = memo[x] = x if x.op in ('const', 'sym', 'bv', 'ext', 'fn', 'cls', 'mod', 'phi') else rebuild(x, go)
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def tally(k, n, key, w):
    """the mapping that starts empty and gets w(k) added under key(k) for k < n"""
    if w is ONE:
        return mk('counter', norm_segs((('gen', k, n, (('el', key),)),)), kind='dict')
    if w.op == 'item' and n.op == 'len' and n.args[0] is w.args[0] and w.args[0].op == 'counter':
        c = w.args[0]
        x = w.args[1]
        if x.op == 'item' and x.args[0] is mk('keys', c, kind=x.args[0].kind) and x.args[1] is k:
            h = mk('bv', -999999, kind='int')
            f = subst_any(key, {x: h})
            if k not in leaves_of(f):
                r = _map_els(c.args[0], lambda e: subst_any(f, {h: e}))
                if r is not None:
                    return mk('counter', norm_segs(r), kind='dict')
    return mk('tally', k, n, key, w, kind='dict')


def _map_els(segs, f):
    out = []
    for s in segs:
        if s[0] == 'el':
            out.append(('el', f(s[1])))
        elif s[0] in ('gen', 'gs'):
            r = _map_els(s[-1], f)
            if r is None:
                return None
            out.append(s[:-1] + (r,))
        else:
            return None
    return tuple(out)


REBUILD['tally'] = tally


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if isinstance(t, tuple):
        if t and t[0] in ('el', 'spl', 'gs', 'gen', 'kv', 'gkv'):
            if t[0] == 'el':
                return show(t[1], d)
            if t[0] == 'spl':
                return '*' + show(t[1], d)
            if t[0] == 'gs':
                return '{%s ? %s}' % (show(t[1], d), ', '.join(show(x, d) for x in t[2]))
            if t[0] == 'gen':
                return '{for %s<%s: %s}' % (show(t[1], d), show(t[2], d), ', '.join(show(x, d) for x in t[3]))
        return '(' + ', '.join(show(x, d) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t)
    if d > 12:
        return '...'
    d += 1
    op, a = t.op, t.args
    if op == 'const':
        return repr(a[1])
    if op == 'sym':
        return a[0]
    if op == 'bv':
        return 'j%d' % a[0]
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'lin':
        s = ' + '.join((show(x, d) if k == 1 else '%d*%s' % (k, show(x, d))) for x, k in a[1])
        return '(' + s + (' + %d' % a[0] if a[0] > 0 else ' - %d' % -a[0] if a[0] < 0 else '') + ')'
    if op == 'ite':
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in a) + ')'
    if op == 'ge0':
        return '(%s >= 0)' % show(a[0], d)
    if op == 'eq0':
        return '(%s == 0)' % show(a[0], d)
    if op == 'eq':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if op == 'not':
        return 'not %s' % show(a[0], d)
    if op == 'cat':
        return '(' + ' ++ '.join(show(x, d) for x in a) + ')'
    if op == 'tup':
        return '(' + ', '.join(show(s, d) for s in a[0]) + ',)'
    if op == 'app':
        return '%s(%s%s)' % (show(a[0], d), ', '.join(show(x, d) for x in a[1]),
                             ''.join(', %s=%s' % (k, show(v, d)) for k, v in a[2]))
    if op == 'ext':
        return a[0]
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))
