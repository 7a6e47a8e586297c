"""Counter-model filter.

Two value-flow terms whose normal forms differ may still denote the same value (the normal form is
not complete).  A difference is only *reported* when a concrete valuation of the symbolic inputs
makes the two closed-form terms different.  No code of /repo is involved: the terms are evaluated
as mathematical expressions, uninterpreted symbols under a free interpretation."""
import os
import time
import zlib

from .terms import *


DEBUG = os.environ.get('VERIF_DEBUG') == 'v'


BUDGET = float(os.environ.get('VERIF_BUDGET', 25))     # seconds of search per difference


class Unknown(Exception):
    pass


class U(tuple):
    """value of an uninterpreted term"""
    __slots__ = ()

    def __lt__(self, o):
        raise Unknown('order of uninterpreted values')


class FD(dict):
    def __hash__(self):
        try:
            return hash(tuple(sorted((repr(k), repr(v)) for k, v in self.items())))
        except TypeError:
            return 0


class UStr(str):
    """distinct unknown text"""
    __slots__ = ()


_order = {}
INTS = (0, 1, 2, 3, -1, 5, 4)
STRS = ('a', 'b', 'Ab', '', 'c d', 'xyz', 'q=r', '_', 'w-1', 'e.2', '#z', 'm|n', 'T\u0130')
RELATED = ('a', '', 'ab', 'ba', 'aa', 'aab', 'aba', 'ab ', 'a b', 'b', ' a')     # texts that often contain one another


POOL = {}      # text -> texts to try as its value
POOL_OF = {}   # attribute name -> texts to try as its value


def _h(*x):
    return zlib.crc32(repr(x).encode('utf-8', 'replace'))


INVARIANT = {}     # (class, attribute) -> function(choice of an attribute) -> value satisfying the class invariant


class Valuation(object):
    def __init__(self, seed, fixed=None, maxlen=3, ints=INTS, strs=STRS):
        self.seed = seed
        self.memo = {}
        self.cache = {}
        self.fixed = fixed or {}
        self.maxlen = maxlen
        self.ints, self.strs = ints, strs
        self.assigned = {}

    # ---------------------------------------------------------------- choosing
    def pick(self, t, key):
        """value of an uninterpreted term, a function of key (its operator and evaluated operands)"""
        if key in self.memo:
            return self.memo[key]
        k = kind(t) or symkind(t)
        i = info(t)
        h = _h(self.seed, key)
        if i is not None and i.values is not None:
            v = i.values[h % len(i.values)]
            if isinstance(v, T):
                v = self.ev(v)
        elif i is not None and i.nullable and h % 3 == 0:
            v = None
        else:
            h //= 3
            if k == 'int':
                v = self.ints[h % len(self.ints)]
                if i is not None and i.nonneg or t.op == 'len':
                    v = abs(v)
            elif k == 'bool':
                v = bool(h & 1)
            elif t in POOL:
                v = POOL[t][h % len(POOL[t])]
            elif t.op == 'attr' and t.args[1] in POOL_OF:
                v = POOL_OF[t.args[1]][h % len(POOL_OF[t.args[1]])]
            elif k == 'str' and i is not None and i.char:
                v = 'abc'[h % 3]
            elif k == 'str':
                pool = [s for s in self.strs if not (i is not None and (any(c in i.excl for c in s)
                                                                        or (i.nonempty and not s)))]
                v = pool[h % len(pool)] if pool else UStr('s%d' % (h % 7))
            elif k == 'float':
                v = (0.0, 0.5, 1.0, 0.25)[h % 4]
            elif k in ('list', 'tuple', 'seq'):
                v = U(('seq', h % (self.maxlen + 1), key))
            elif k == 'dict':
                v = U(('dict', h % (self.maxlen + 1), key))
            else:
                v = U(('u',) + (key if isinstance(key, tuple) else (key,)))
        self.memo[key] = v
        self.assigned[t] = v
        return v

    # ---------------------------------------------------------------- helpers
    def seq(self, v, t=None):
        """python tuple of the elements of a value"""
        if isinstance(v, U):
            n = self.ulen(v)
            return tuple(self.uitem(v, i, t) for i in range(n))
        if isinstance(v, (tuple, str)):
            return tuple(v)
        if isinstance(v, dict):
            return tuple(v)
        if isinstance(v, frozenset):
            raise Unknown('set order')
        raise Unknown('sequence of %r' % (v,))

    def ulen(self, v):
        if v[0] in ('seq', 'dict'):
            return v[1]
        k = ('len', v)
        if k not in self.memo:
            self.memo[k] = _h(self.seed, k) % (self.maxlen + 1)
        return self.memo[k]

    def uitem(self, v, i, t=None):
        if v[0] == 'dict' and t is None:
            return ('key', i, v)
        key = ('item', v, i)
        if t is None:
            return self.memo.setdefault(key, U(('u',) + key))
        return self.pick(t, key)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        raise Unknown('number %r' % (v,))

    def segs(self, ss, env):
        out = []
        for s in ss:
            if s[0] == 'el':
                out.append(self.ev(s[1], env))
            elif s[0] == 'spl':
                v = self.ev(s[1], env)
                if isinstance(v, U):
                    n = self.ulen(v)
                    if v[0] == 'dict':
                        raise Unknown('dict')
                    for i in range(n):
                        out.append(self.ev(item(s[1], const(i)), env))
                else:
                    out.extend(self.seq(v))
            elif s[0] == 'gs':
                if self.truth(self.ev(s[1], env)):
                    out.extend(self.segs(s[2], env))
            elif s[0] == 'gen':
                n = self.ev(s[2], env)
                for i in range(self.num(n)):
                    out.extend(self.segs(s[3], dict(env, **{'%d' % s[1].args[0]: i})))
            else:
                raise Unknown(s[0])
        return out

    def dsegs(self, ss, env, out):
        for s in ss:
            if s[0] == 'kv':
                k = self.ev(s[1], env)
                out[k] = self.ev(s[2], env)
            elif s[0] == 'gs':
                if self.truth(self.ev(s[1], env)):
                    self.dsegs(s[2], env, out)
            elif s[0] == 'gen':
                n = self.ev(s[2], env)
                for i in range(self.num(n)):
                    self.dsegs(s[3], dict(env, **{'%d' % s[1].args[0]: i}), out)
            elif s[0] == 'spl':
                v = self.ev(s[1], env)
                out.update(self.dict_of(v))
            else:
                raise Unknown(s[0])
        return out

    def dict_of(self, v):
        if isinstance(v, dict):
            return v
        if isinstance(v, U) and v[0] == 'dict':
            key = ('dictval', v)
            if key not in self.memo:
                d = FD()
                pool = ('k1', 'a', 'b', 'Case', 'k2')
                for i in range(v[1]):
                    k = pool[(_h(self.seed, key) + i) % len(pool)]
                    d[k] = self.strs[_h(self.seed, key, i) % len(self.strs)] or 'v'
                self.memo[key] = d
            return self.memo[key]
        raise Unknown('dict %r' % (v,))

    def truth(self, v):
        if isinstance(v, U):
            if v[0] in ('seq', 'dict'):
                return v[1] > 0
            raise Unknown('truth of an uninterpreted value')
        return bool(v)

    # ---------------------------------------------------------------- evaluation
    def ev(self, t, env=None):
        if t.op == 'const':
            return t.args[1]
        if t in self.fixed:
            return self.fixed[t]
        k = t
        if env:
            ls = _order.get(t)
            if ls is None:
                ls = _order[t] = tuple(sorted(((l if l.op == 'phi' else '%d' % l.args[0]) for l in leaves_of(t)), key=repr))
            vs = []
            for l in ls:
                if l in env:
                    if not isinstance(l, str):
                        k = None
                        break
                    vs.append(l)
                    vs.append(env[l])
            if k is not None and vs:
                k = (t, tuple(vs))
        else:
            env = {}
        if k is not None:
            r = self.cache.get(k)
            if r is not None:
                if r[1] is not None:
                    raise r[1]
                return r[0]
        m = getattr(self, 'v_' + t.op, None)
        try:
            r = m(t, env) if m is not None else self.free(t, env)
        except Unknown as e:
            if k is not None:
                self.cache[k] = (None, e)
            raise
        if k is not None:
            self.cache[k] = (r, None)
        return r

    def free(self, t, env):
        if t.op in ('mu', 'poison', 'phi', 'undef', 'inf', 'raises', 'ref', 'iref', 'star', 'payload', 'cyc', 'rec'):
            raise Unknown(t.op)
        return self.pick(t, (t.op,) + tuple(self.arg(a, env) for a in t.args))

    def arg(self, a, env):
        if isinstance(a, T):
            return self.ev(a, env)
        if isinstance(a, tuple):
            if a and isinstance(a[0], tuple) and a[0] and a[0][0] in ('el', 'spl', 'gs', 'gen'):
                return tuple(self.segs(a, env))
            return tuple(self.arg(x, env) for x in a)
        return a

    def v_const(self, t, env):
        v = t.args[1]
        return v

    def v_sym(self, t, env):
        return self.pick(t, ('sym', t.args[0]))

    def v_bv(self, t, env):
        k = '%d' % t.args[0]
        if k not in env:
            raise Unknown('unbound index')
        return env[k]

    def v_obj(self, t, env):
        return U(('obj',) + tuple(self.arg(a, env) for a in t.args))

    def v_fn(self, t, env):
        return U(('fn',) + t.args)

    def v_cls(self, t, env):
        return U(('cls',) + t.args)

    v_ext = v_mod = v_cls

    def v_attr(self, t, env):
        b = self.ev(t.args[0], env)
        if b is None:
            raise Unknown('attribute of None')
        if isinstance(b, tuple) and not isinstance(b, U) and b and b[0] == 'inst':
            for n, v in b[2]:
                if n == t.args[1]:
                    return v
            raise Unknown('attribute')
        if t.args[0].op == 'obj':
            g = INVARIANT.get((t.args[0].args[0], t.args[1]))
            if g is not None:
                r = self.assigned[t] = g(lambda name: self.pick(attr(t.args[0], name), ('attr', b, name)))
                return r
        return self.pick(t, ('attr', b, t.args[1]))

    def v_lin(self, t, env):
        r = t.args[0]
        for a, k in t.args[1]:
            r += k * self.num(self.ev(a, env))
        return r

    def v_cat(self, t, env):
        out = []
        for a in t.args:
            v = self.ev(a, env)
            if not isinstance(v, str):
                raise Unknown('concatenation of %r' % (v,))
            out.append(v)
        return ''.join(out)

    def v_slice(self, t, env):
        b = self.ev(t.args[0], env)
        lo, hi, st = [self.ev(a, env) for a in t.args[1:4]]
        for x in (lo, hi, st):
            if x is not None and not isinstance(x, int):
                raise Unknown('slice')
        if isinstance(b, str):
            return b[lo:hi:st]
        if isinstance(b, U):
            n = self.ulen(b)
            return tuple(self.ev(item(t.args[0], const(i)), env) for i in range(n)[lo:hi:st])
        return self.seq(b)[lo:hi:st]

    def v_ite(self, t, env):
        return self.ev(t.args[1] if self.truth(self.ev(t.args[0], env)) else t.args[2], env)

    def v_and(self, t, env):
        unk = None
        for a in t.args:
            try:
                if not self.truth(self.ev(a, env)):
                    return False
            except Unknown as e:
                unk = e
        if unk:
            raise unk
        return True

    def v_or(self, t, env):
        unk = None
        for a in t.args:
            try:
                if self.truth(self.ev(a, env)):
                    return True
            except Unknown as e:
                unk = e
        if unk:
            raise unk
        return False

    def v_not(self, t, env):
        return not self.truth(self.ev(t.args[0], env))

    def v_ge0(self, t, env):
        return self.num(self.ev(t.args[0], env)) >= 0

    def v_eq0(self, t, env):
        a = t.args[0]
        if a.op == 'lin' and len(a.args[1]) == 1 and self.ev(a.args[1][0][0], env) is None:
            return False            # None == number
        v = self.ev(a, env)
        return v == 0 and v is not None and not isinstance(v, (U, str))

    def equal(self, a, b):
        if isinstance(a, U) and isinstance(b, U) and a[0] == b[0] and a[0] in ('seq', 'dict') and a[1] == 0 == b[1]:
            return True
        if isinstance(a, U) and a[0] == 'dict' and isinstance(b, dict):
            return dict(self.dict_of(a)) == b
        if isinstance(b, U) and b[0] == 'dict' and isinstance(a, dict):
            return dict(self.dict_of(b)) == a
        if isinstance(a, U) and a[0] == 'seq' and isinstance(b, tuple) and not isinstance(b, U):
            if a[1] != len(b):
                return False
            raise Unknown('sequence equality')
        if isinstance(b, U) and b[0] == 'seq' and isinstance(a, tuple) and not isinstance(a, U):
            return self.equal(b, a)
        return a == b

    def v_eq(self, t, env):
        return self.equal(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def v_is(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, U) and isinstance(b, U):
            return a == b
        raise Unknown('identity')

    def v_lt(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(a, U) or isinstance(b, U):
            return self.pick(t, ('lt', a, b)) if a != b else False
        try:
            return a < b
        except TypeError:
            raise Unknown('order')

    def rng(self, t, env):
        n = self.num(self.ev(t.args[1], env))
        k = '%d' % t.args[0].args[0]
        for i in range(n):
            yield i, dict(env, **{k: i})

    def v_exists(self, t, env):
        unk = None
        for i, e in self.rng(t, env):
            try:
                if self.truth(self.ev(t.args[2], e)):
                    return True
            except Unknown as x:
                unk = x
        if unk:
            raise unk
        return False

    def v_forall(self, t, env):
        unk = None
        for i, e in self.rng(t, env):
            try:
                if not self.truth(self.ev(t.args[2], e)):
                    return False
            except Unknown as x:
                unk = x
        if unk:
            raise unk
        return True

    def v_first(self, t, env):
        for i, e in self.rng(t, env):
            if self.truth(self.ev(t.args[2], e)):
                return i
        raise Unknown('first')

    def v_last(self, t, env):
        r = None
        for i, e in self.rng(t, env):
            if self.truth(self.ev(t.args[2], e)):
                r = i
        if r is None:
            raise Unknown('last')
        return r

    def v_sum(self, t, env):
        r = 0
        for i, e in self.rng(t, env):
            r += self.num(self.ev(t.args[2], e))
        return r

    def v_sgen(self, t, env):
        r = ''
        for i, e in self.rng(t, env):
            v = self.ev(t.args[2], e)
            if not isinstance(v, str):
                raise Unknown('text')
            r += v
        return r

    def v_len(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, U):
            return self.ulen(v)
        if v is None or isinstance(v, (int, float)):
            raise Unknown('len')
        return len(v)

    def v_item(self, t, env):
        b = self.ev(t.args[0], env)
        i = self.ev(t.args[1], env)
        if b is None:
            raise Unknown('item of None')
        if isinstance(b, dict) or (isinstance(b, U) and b[0] == 'dict' and not isinstance(i, int)):
            d = self.dict_of(b)
            for k, v in d.items():
                if self.equal(k, i):
                    return v
            raise Unknown('missing key')
        if isinstance(b, U):
            if isinstance(i, int) and not isinstance(i, bool):
                n = self.ulen(b)
                if b[0] == 'seq' and not -n <= i < n:
                    raise Unknown('index out of range')
                if b[0] == 'seq' and i < 0:
                    i += n
            return self.pick(t, ('item', b, i))
        if isinstance(b, (str, tuple)) and isinstance(i, int):
            if not -len(b) <= i < len(b):
                raise Unknown('index out of range')
            return b[i]
        raise Unknown('item')

    def v_tup(self, t, env):
        return tuple(self.segs(t.args[0], env))

    def v_frz(self, t, env):
        k = t.args[0]
        if k in ('list', 'iter'):
            return tuple(self.segs(t.args[1], env))
        if k == 'set':
            return frozenset(self.segs(t.args[1], env))
        if k == 'dict':
            return self.dsegs(t.args[1], env, FD())
        if k == 'inst':
            return ('inst', t.args[1].args[0], tuple((n, self.ev(v, env)) for n, v in t.args[2]))
        raise Unknown(k)

    def v_exc(self, t, env):
        return U(('exc', t.args[0]))

    def v_copyof(self, t, env):
        return self.ev(t.args[1], env)

    def v_str(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, str):
            return v
        if isinstance(v, (int, type(None))):
            return str(v)
        return UStr('str<%r>' % (v,))

    v_asstr = v_str

    def v_int(self, t, env):
        v = self.ev(t.args[0], env)
        try:
            return int(v)
        except (TypeError, ValueError):
            raise Unknown('int()')

    v_asint = v_int

    def v_min(self, t, env):
        return min(self.num(self.ev(a, env)) for a in t.args)

    def v_max(self, t, env):
        return max(self.num(self.ev(a, env)) for a in t.args)

    def v_clamp(self, t, env):
        x, n = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if x is None:
            raise Unknown('clamp')
        return max(0, x + n) if x < 0 else min(x, n)

    def _bin(f):
        def g(self, t, env):
            a, b = self.num(self.ev(t.args[0], env)), self.num(self.ev(t.args[1], env))
            try:
                return f(a, b)
            except ZeroDivisionError:
                raise Unknown('division by zero')
        return g
    v_sub = _bin(lambda a, b: a - b)
    v_add = _bin(lambda a, b: a + b)
    v_mul = _bin(lambda a, b: a * b)
    v_div = _bin(lambda a, b: a / b)
    v_modulo = _bin(lambda a, b: a % b)
    v_floordiv = _bin(lambda a, b: a // b)
    v_pow = _bin(lambda a, b: a ** b)

    def v_abs(self, t, env):
        return abs(self.num(self.ev(t.args[0], env)))

    def v_neg(self, t, env):
        return -self.num(self.ev(t.args[0], env))

    def v_truthy(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, U) and v[0] not in ('seq', 'dict'):
            if v[0] in ('obj', 'fn', 'cls'):
                return True
            return self.pick(t, ('truthy', v))
        return self.truth(v)

    def v_float(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (int, float)):
            return float(v)
        return self.pick(t, ('float', v))

    def v_strm(self, t, env):
        x = self.ev(t.args[1], env)
        a = [self.ev(y, env) for y in t.args[2:]]
        if not isinstance(x, str) or isinstance(x, UStr):
            raise Unknown('text')
        try:
            return getattr(x, t.args[0])(*a)
        except (TypeError, AttributeError):
            raise Unknown('text method')

    def v_startswith(self, t, env):
        x, p = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if not isinstance(x, str) or not isinstance(p, str):
            raise Unknown('text')
        return x.startswith(p)

    def v_endswith(self, t, env):
        x, p = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if not isinstance(x, str) or not isinstance(p, str):
            raise Unknown('text')
        return x.endswith(p)

    def v_in(self, t, env):
        x, c = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(x, str) and isinstance(c, str):
            return x in c
        if isinstance(c, U) and c[0] == 'dict':
            return any(self.equal(x, k) for k in self.dict_of(c))
        if isinstance(c, U) and c[0] == 'seq':
            return any(self.equal(x, self.ev(item(t.args[1], const(i)), env)) for i in range(c[1]))
        if isinstance(c, U):
            return self.pick(t, ('in', x, c))
        if isinstance(c, (tuple, dict, frozenset)):
            return any(self.equal(x, k) for k in c)
        raise Unknown('in')

    def v_sjoin(self, t, env):
        s = self.ev(t.args[0], env)
        xs = self.segs(t.args[1], env)
        if not isinstance(s, str) or any(not isinstance(x, str) for x in xs):
            raise Unknown('join')
        return s.join(xs)

    def v_split(self, t, env):
        x = self.ev(t.args[0], env)
        a = [self.ev(y, env) for y in t.args[1:]]
        if not isinstance(x, str) or (a and a[0] == ''):
            raise Unknown('split')
        return tuple(x.split(*a))

    def v_partition(self, t, env):
        x, s = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if not isinstance(x, str) or not s:
            raise Unknown('partition')
        return x.partition(s)

    def v_rev(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, str):
            return v[::-1]
        if isinstance(v, U):
            return tuple(self.ev(item(t.args[0], const(i)), env) for i in range(self.ulen(v)))[::-1]
        return self.seq(v)[::-1]

    def v_sorted(self, t, env):
        xs = self.segs(t.args[0], env)
        if len(xs) <= 1:
            return tuple(xs)
        try:
            if t.args[1] is not NONE:
                ks = self.sort_keys(t, xs, env)
                order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=self.truth(self.ev(t.args[2], env)))
                return tuple(xs[i] for i in order)
            return tuple(sorted(xs, reverse=self.truth(self.ev(t.args[2], env))))
        except TypeError:
            raise Unknown('order')

    def sort_keys(self, t, xs, env):
        """the keys of the elements xs of sorted(segs, key), key being a term over the index (or the element)"""
        segs, key = t.args[0], t.args[1]
        s = segs[0]
        if len(segs) == 1 and s[0] in ('gen', 'spl'):
            out = []
            n = self.num(self.ev(s[2], env)) if s[0] == 'gen' else len(xs)
            for i in range(n):
                if s[0] == 'gen':
                    m = len(self.segs(s[3], dict(env, **{'%d' % s[1].args[0]: i})))
                    if m > 1:
                        raise Unknown('sorted by key')
                    if not m:
                        continue
                out.append(self.ev(key, dict(env, **{'0': i})))
            if len(out) == len(xs):
                return out
        raise Unknown('sorted by key')

    def v_keys(self, t, env):
        return tuple(self.dict_of(self.ev(t.args[0], env)))

    def v_values(self, t, env):
        return tuple(self.dict_of(self.ev(t.args[0], env)).values())

    def v_items(self, t, env):
        return tuple(self.dict_of(self.ev(t.args[0], env)).items())

    def v_upd(self, t, env):
        b = self.ev(t.args[0], env)
        i, v = self.ev(t.args[1], env), self.ev(t.args[2], env)
        if isinstance(b, U):
            b = tuple(self.ev(item(t.args[0], const(k)), env) for k in range(self.ulen(b)))
        if not isinstance(b, tuple) or not isinstance(i, int) or not -len(b) <= i < len(b):
            raise Unknown('store')
        b = list(b)
        b[i] = v
        return tuple(b)

    def v_counter(self, t, env):
        out = FD()
        if len(t.args[0]) == 1 and t.args[0][0][0] == 'map':
            out.update(self.dict_of(self.ev(t.args[0][0][1], env)))
            return out
        for x in self.segs(t.args[0], env):
            out[x] = out.get(x, 0) + 1
        return out

    def v_fold(self, t, env):
        bv, n, specs = t.args
        n = self.num(self.ev(n, env))
        if n > 40:
            raise Unknown('long loop')
        cur = {}

        def value(kd, x, e):
            try:
                if kd == 'f':
                    return self.ev(x, e) if x is not UNDEF else Unknown('undefined')
                return tuple(self.segs(x, e)) if kd == 'list' else self.dsegs(x, e, FD())
            except Unknown as err:
                return err
        for p, kd, iv, _ in specs:
            cur[p] = value(kd, iv, env)
        for i in range(n):
            e = dict(env, **{'%d' % bv.args[0]: i})
            e.update(cur)
            cur = {p: value(kd, b, e) for p, kd, _, b in specs}
        if isinstance(cur[specs[0][0]], Unknown):
            raise cur[specs[0][0]]
        return cur[specs[0][0]]

    def v_phi(self, t, env):
        v = env.get(t)
        if t not in env:
            raise Unknown('phi')
        if isinstance(v, Unknown):
            raise v
        return v

    def v_tally(self, t, env):
        bv, n, kk, w = t.args
        out = FD()
        for i in range(self.num(self.ev(n, env))):
            e = dict(env, **{'%d' % bv.args[0]: i})
            x = self.ev(kk, e)
            out[x] = self.num(out.get(x, 0)) + self.num(self.ev(w, e))
        return out

    def v_most_common(self, t, env):
        d = self.dict_of(self.ev(t.args[0], env))
        xs = tuple(sorted(d.items(), key=lambda x: -self.num(x[1])))
        return xs[:self.num(self.ev(t.args[1][0], env))] if t.args[1] else xs

    def v_isinstance(self, t, env):
        return self.pick(t, ('isinstance', self.ev(t.args[0], env), self.arg(t.args[1], env)))

    def v_lookup(self, t, env):
        bv, n, kk, vv, key = t.args
        want = self.ev(key, env)
        r = None
        for i in range(self.num(self.ev(n, env))):
            e = dict(env, **{'%d' % bv.args[0]: i})
            if self.equal(self.ev(kk, e), want):
                r = (self.ev(vv, e),)
        if r is None:
            raise Unknown('missing key')
        return r[0]


def models(pc, seeds=range(240), **kw):
    """valuations satisfying every condition of pc"""
    end = time.time() + BUDGET
    for s in seeds:
        if time.time() > end:
            return
        v = Valuation(s, **(kw if s % 4 != 3 else dict(kw, strs=RELATED)))
        try:
            if all(v.truth(v.ev(c)) for c in pc):
                yield v
        except Unknown as e:
            if DEBUG:
                print('unknown in condition:', str(e)[:300])
            continue


def differ(a, b, pc, seeds=range(240), **kw):
    """a valuation under pc where a and b have different values, or None"""
    for v in models(pc, seeds, **kw):
        try:
            x, y = v.ev(a), v.ev(b)
            if DEBUG:
                print('values', repr(x)[:700])
            if not v.equal(x, y):
                return v, x, y
        except Unknown as e:
            if DEBUG:
                print('unknown:', str(e)[:300])
            continue
    if DEBUG:
        print('no difference found')
    return None


def describe(v, a=None):
    out = []
    for t, x in list(v.assigned.items())[:14]:
        out.append('%s = %s' % (show(t)[:60], _short(x)))
    return '; '.join(out)


def _short(x):
    r = repr(x)
    return r if len(r) < 60 else r[:57] + '...'
