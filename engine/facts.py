"""Path facts: a conjunction of literals and what it entails (no solver: bounded linear combination of
recorded difference facts, equality with constants, None-ness, instantiation of universal facts)."""
from .terms import *

_cache = {}

CLAUSES = {}       # (class, attribute) -> [function(obj) -> disjunction]
AXIOMS = {}          # (class, attribute) -> functions of the object giving a non-negative affine term


def facts_of(pc):
    f = _cache.get(pc)
    if f is None:
        f = Facts(pc)
        if len(_cache) > 20000:
            _cache.clear()
        _cache[pc] = f
    return f


class Facts(object):
    def __init__(self, pc):
        self.known = set()
        self.lins = []
        self.eqc = {}        # term -> constant it equals
        self.neq = set()
        self.foralls = []
        self.memo = {}
        self.axed = set()
        for c in pc:
            self._add(c)
        more = any(c.op == 'or' for c in self.known)
        while more:
            more = False
            for c in [k for k in self.known if k.op == 'or']:
                left = [x for x in c.args if not_(x) not in self.known]
                if len(left) == 1 and left[0] not in self.known:
                    self._add(left[0])
                    more = True
        for x in sorted((x for x in self.neq if x.op == 'eq0'), key=skey)[:12]:
            # not zero and not negative: at least one
            for e in (x.args[0], neg(x.args[0])):
                if self.ge(e):
                    p = lin_parts(sub(e, ONE))
                    if p is not None:
                        self.lins.append(p)

    def _add(self, c):
        if c in self.known:
            return
        self.known.add(c)
        if c.op == 'and':
            for x in c.args:
                self._add(x)
        elif c.op == 'ge0':
            p = lin_parts(c.args[0])
            if p is not None:
                self.lins.append(p)
        elif c.op == 'eq0':
            p = lin_parts(c.args[0])
            if p is not None:
                self.lins.append(p)
                self.lins.append(lin_parts(neg(c.args[0])))
                if len(p[1]) == 1:
                    (a, k), = p[1].items()
                    if k in (1, -1):
                        self.eqc[a] = const(-p[0] * k)
        elif c.op == 'eq':
            a, b = c.args
            if b.op == 'const':
                self.eqc[a] = b
            elif a.op == 'const':
                self.eqc[b] = a
        elif c.op == 'forall':
            self.foralls.append(c)
        elif c.op == 'in':
            if kind(c.args[1]) in ('dict', 'list', 'tuple', 'seq'):
                p = lin_parts(sub(len_(c.args[1]), ONE))
                if p is not None:
                    self.lins.append(p)
        elif c.op == 'not':
            x = c.args[0]
            if x.op in ('eq', 'eq0'):
                self.neq.add(x)

    # ---------------------------------------------------------------- linear entailment
    def ge(self, e):
        p = lin_parts(e)
        if p is None:
            return None
        if self._nonneg(p):
            return True
        self._axioms(p)
        if self._search(p, 3):
            return True
        return None

    def _axioms(self, p):
        """invariants of typed objects, as linear facts about the attributes occurring in p"""
        todo = list(p[1])
        for f in self.lins[:60]:
            todo += f[1]
        for a in todo:
            if a in self.axed:
                continue
            self.axed.add(a)
            if a.op == 'attr' and a.args[0].op == 'obj':
                for g in AXIOMS.get((a.args[0].args[0], a.args[1]), ()):
                    q = lin_parts(g(a.args[0]))
                    if q is not None:
                        self.lins.append(q)

    def _nonneg(self, p):
        return p[0] >= 0 and all(v > 0 and nonneg_atom(a) for a, v in p[1].items() if v)

    def _search(self, p, depth):
        if self._nonneg(p):
            return True
        if depth == 0:
            return False
        bad = [a for a, v in p[1].items() if v and not (v > 0 and nonneg_atom(a))]
        for f in self.lins:
            if bad:
                # f must help with the first problematic atom
                a = bad[0]
                if f[1].get(a, 0) * p[1][a] <= 0:
                    continue
            else:
                if f[0] >= 0 or not any(x in p[1] for x in f[1]):
                    continue
            d = dict(p[1])
            for x, v in f[1].items():
                d[x] = d.get(x, 0) - v
                if d[x] == 0:
                    del d[x]
            if len(d) > 6:
                continue
            if self._search((p[0] - f[0], d), depth - 1):
                return True
        return False

    # ---------------------------------------------------------------- decide
    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.memo:
            return self.memo[c]
        r = self._decide(c)
        self.memo[c] = r
        return r

    def _decide(self, c):
        if c in self.known:
            return True
        n = not_(c)
        if n in self.known:
            return False
        op = c.op
        if op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if op == 'and':
            rs = [self.decide(x) for x in c.args]
            if any(r is False for r in rs):
                return False
            return True if all(rs) else None
        if op == 'or':
            rs = [self.decide(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if op == 'ite':
            r = self.decide(c.args[0])
            if r is not None:
                return self.decide(c.args[1] if r else c.args[2])
            a, b = self.decide(c.args[1]), self.decide(c.args[2])
            return a if a == b else None
        if op == 'ge0':
            if self.ge(c.args[0]):
                return True
            if self.ge(sub(const(-1), c.args[0])):
                return False
            return self._by_or(c)
        if op == 'eq0':
            d = c.args[0]
            p = lin_parts(d)
            if p is not None:
                for a in p[1]:
                    if nullable(a) and self.is_none(a) is True:
                        return False
            if self.ge(sub(d, ONE)) or self.ge(sub(neg(d), ONE)):
                return False
            if self.ge(d) and self.ge(neg(d)):
                return True
            return self._by_or(c)
        if op == 'eq':
            a, b = c.args
            if a in self.eqc or b in self.eqc:
                a2, b2 = self.eqc.get(a, a), self.eqc.get(b, b)
                e = eq(a2, b2)
                if e is not c:
                    r = self.decide(e)
                    if r is not None:
                        return r
            if a is NONE or b is NONE:
                return self.is_none(b if a is NONE else a)
            return self._by_or(c)
        if op == 'truthy':
            x = c.args[0]
            if x in self.eqc and cval(self.eqc[x]) in (None, False, '', 0):
                return False
            if self.is_none(x) is True:
                return False
        if op == 'exists':
            for f in self.foralls:
                if f.args[1] is c.args[1]:
                    body = subst(f.args[2], {f.args[0]: c.args[0]})
                    g = Facts((body,))
                    if g.decide(c.args[2]) is False:
                        return False
        if op == 'forall':
            r = self.decide(not_(c))
            return None if r is None else not r
        return self._by_or(c)

    def is_none(self, x):
        """None-ness of x: True / False / None(unknown)"""
        if x is NONE:
            return True
        if never_none(x):
            return False
        e = mk('eq', *( (x, NONE) if skey(x) <= skey(NONE) else (NONE, x)), kind='bool')
        if e in self.known:
            return True
        if not_(e) in self.known:
            return False
        if x in self.eqc:
            return cval(self.eqc[x]) is None
        for k in self.known:
            if k.op == 'truthy' and k.args[0] is x:
                return False
        for p in self.lins:
            if x in p[1]:
                return False
        return None

    def _clauses(self, c):
        """invariants of typed objects that are disjunctions"""
        x = c.args[0] if c.op == 'not' else c
        for a in (lin_parts(x.args[0])[1] if x.op in ('eq0', 'ge0') and lin_parts(x.args[0]) else x.args):
            if isinstance(a, T) and a.op == 'attr' and a.args[0].op == 'obj':
                for g in CLAUSES.get((a.args[0].args[0], a.args[1]), ()):
                    k = g(a.args[0])
                    if k not in self.known:
                        self.known.add(k)

    def _by_or(self, c):
        if CLAUSES:
            self._clauses(c)
        # resolve against recorded disjunctions: (a or c) with a refuted gives c
        for k in self.known:
            if k.op == 'or':
                if c in k.args:
                    if all(self._dec0(x) is False for x in k.args if x is not c):
                        return True
                n = not_(c)
                if n in k.args:
                    if all(self._dec0(x) is False for x in k.args if x is not n):
                        return False
        for f in self.foralls:
            r = self._inst(f, c)
            if r is not None:
                return r
        return None

    def _dec0(self, x):
        if x in self.known:
            return True
        if not_(x) in self.known:
            return False
        if x.op == 'ge0':
            if self.ge(x.args[0]):
                return True
            if self.ge(sub(const(-1), x.args[0])):
                return False
        return None

    def _inst(self, f, c):
        bv, n, body = f.args
        idx = set()
        _indices(c, idx)
        for t in idx:
            if t is bv:
                continue
            b = subst(body, {bv: t})
            if b is c or (b.op == 'and' and c in b.args):
                if self.ge(t) and self.ge(sub(sub(n, t), ONE)):
                    return True
            nc = not_(c)
            if b is nc or (b.op == 'and' and nc in b.args):
                if self.ge(t) and self.ge(sub(sub(n, t), ONE)):
                    return False
        return None

    # ---------------------------------------------------------------- simplification under facts
    def simp(self, t, memo=None):
        if memo is None:
            memo = {}
        return self._simp(t, memo)

    def _simp(self, t, memo):
        if t.op in ('const', 'sym', 'bv', 'phi', 'ref', 'first'):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'ite':
            d = self.decide(t.args[0])
            if d is not None:
                r = self._simp(t.args[1] if d else t.args[2], memo)
            else:
                r = ite(self._simp(t.args[0], memo), self._simp(t.args[1], memo), self._simp(t.args[2], memo))
        elif kind(t) == 'bool' and self.decide(t) is not None:
            r = const(self.decide(t))
        elif t.op == 'modulo' and kind(t) == 'int' and self._reduced(t) is not None:
            r = self._simp(self._reduced(t), memo)
        else:
            r = rebuild(t, lambda a: self._sarg(a, memo))
            if r.op in ('max', 'min') and all(lin_parts(a) is not None for a in r.args):
                a, b = r.args if r.op == 'max' else r.args[::-1]
                r = a if self.ge(sub(a, b)) else b if self.ge(sub(b, a)) else r
            if r is not t and kind(r) == 'bool' and r.op != 'const':
                d = self.decide(r)
                if d is not None:
                    r = const(d)
        memo[t] = r
        return r

    def _reduced(self, t):
        """a mod n where -n <= a < n is decided"""
        a, n = t.args
        if self.ge(a) and self.ge(sub(sub(n, a), ONE)):
            return a
        if self.ge(add(a, n)) and self.ge(sub(const(-1), a)):
            return add(a, n)
        return None

    def _sarg(self, a, memo):
        if isinstance(a, T):
            return self._simp(a, memo)
        if isinstance(a, tuple):
            return tuple(self._sarg(x, memo) for x in a)
        return a


_IDX = {}


def _indices(t, out):
    out |= _idx(t)


def _idx(t):
    r = _IDX.get(t)
    if r is None:
        r = set()
        if t.op == 'item':
            r.add(t.args[1])
        for c in children(t):
            if t.op == 'obj' and kind(c) == 'int':
                r.add(c)
            r |= _idx(c)
        r = _IDX[t] = frozenset(r)
    return r
