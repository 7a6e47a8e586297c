"""Obligation bookkeeping shared by all checks.

An obligation is a statement about the value-flow summary of some functions of /repo.  It ends as
  PROVED     normal forms agree (for every input the symbols stand for),
  REFUTED    normal forms differ and a concrete valuation of the symbols separates them,
  UNDECIDED  the analysis met a construct it does not model; never reported as a violation.
"""
import json
import os
import sys
import time
import ctypes
import threading
import traceback

from engine.terms import *
from engine import terms as _terms
from engine.interp import Interp, Program, Undecided, Dead, State, LOG, Func
from engine import lib, valuate
from engine.facts import facts_of

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorMissing(Exception):
    pass


ENOUGH = 24         # violations after which no more are looked for
START, GROUP, TOTAL, WATCH = time.time(), int(os.environ.get("VERIF_GROUP_S", 120)), int(os.environ.get("VERIF_TOTAL_S", 500)), []


class OutOfTime(BaseException):
    pass


def watch():
    """raise OutOfTime in a group that runs for too long"""
    while True:
        time.sleep(0.5)
        w = list(WATCH)
        if len(w) == 2 and time.time() > min(w[1], START + TOTAL):
            WATCH[:] = []
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(w[0]), ctypes.py_object(OutOfTime))


class Bad(Exception):
    """raised inside an obligation: the construct violates the rule"""


_program = []


def program():
    if not _program:
        _program.append(Program(REPO))
    return _program[0]


class Check(object):
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.results = []           # (status, name, anchor, detail)
        self.known = load_known(pid)
        self.funcs = set()
        self.calls = 0
        self.steps = 0
        self.interps = []
        self.counts = {}

    # ------------------------------------------------------------ engine
    def interp(self, opaque=(), **kw):
        it = Interp(program(), opaque=opaque, **kw)
        it.load_all()
        self.interps.append(it)
        return it

    def anchor(self, it, qual):
        v = it.glob(qual)
        if v is None:
            raise AnchorMissing(qual)
        return v

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    # ------------------------------------------------------------ obligations
    def add(self, status, name, anchor, detail=''):
        self.results.append((status, name, anchor, detail))
        return status == 'PROVED'

    def group(self, name, anchor, fn, *args):
        """run fn; anything the analysis cannot model, or cannot decide in time, leaves the group undecided"""
        if sum(r[0] == 'REFUTED' for r in self.results) > ENOUGH:
            return self.add('UNDECIDED', name, anchor, 'not looked at, enough violations are known')
        if time.time() - START > TOTAL:
            return self.add('UNDECIDED', name, anchor, 'no time left')
        try:
            WATCH[:] = [threading.get_ident(), time.time() + GROUP]
            try:
                fn(*args)
            finally:
                WATCH[:] = []
        except OutOfTime:
            self.add('UNDECIDED', name, anchor, 'not decided within %d s' % GROUP)
        except AnchorMissing:
            raise
        except Bad as e:
            self.add('REFUTED', name, anchor, str(e))
        except Undecided as e:
            self.add('UNDECIDED', name, anchor, 'not modelled: %s' % e)
        except Dead:
            self.add('UNDECIDED', name, anchor, 'no normal completion')
        except RecursionError:
            self.add('UNDECIDED', name, anchor, 'recursion limit')
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                print("".join(traceback.format_exc().splitlines(True)[-int(os.environ["VERIF_DEBUG"]) * 6:]))
            self.add('UNDECIDED', name, anchor, 'analysis gave up: %s: %s' % (type(e).__name__, e))

    def eq(self, name, anchor, got, want, st, seeds=range(240), **kw):
        """got and want denote the same value whenever st's path condition holds"""
        got, want, pc = unify(renumber(erase(got)), renumber(erase(want)), st.pc)
        st = State(st.heap, pc)
        g, w = st.simp(got), st.simp(want)
        if g is w or alpha(g) is alpha(w):
            return self.add('PROVED', name, anchor)

        if all(by_cases(st, lambda s: equal(s, x, y), (x, y), [320]) for x, y in components(g, w)):
            return self.add('PROVED', name, anchor)
        d = valuate.differ(g, w, st.pc, seeds, **kw)
        if d is not None:
            new = unmodelled(g) - unmodelled(w)
            if new:
                return self.add('UNDECIDED', name, anchor, 'uses %s, which is not modelled' % ', '.join(sorted(new)))
            v, x, y = d
            fd = first_difference(g, w) or ('', g, w)
            x, y = narrow(x, y)
            return self.add('REFUTED', name, anchor, 'is %s, should be %s [e.g. %s instead of %s when %s]' % (
                pretty(fd[1])[:400], pretty(fd[2])[:400], repr(x)[:300], repr(y)[:300], valuate.describe(v)))
        fd = first_difference(g, w) or ('', g, w)
        return self.add('UNDECIDED', name, anchor, 'cannot relate %s to %s' % (pretty(fd[1])[:600], pretty(fd[2])[:600]))

    def holds(self, name, anchor, c, st, seeds=range(240), near=None, **kw):
        """c follows from st; near: substitution to look for counter-models close to a known case"""
        if by_cases(st, lambda s: s.decide(s.simp(c)) is True, (c,), [320]):
            return self.add('PROVED', name, anchor)
        pc = st.pc
        if near:
            pc = tuple(subst_any(x, near) for x in pc)
            c = subst_any(c, near)
        for v in valuate.models(pc, seeds, **kw):
            try:
                if not v.truth(v.ev(c)):
                    return self.add('REFUTED', name, anchor, 'does not hold: %s [when %s]' % (
                        show(c)[:300], valuate.describe(v)))
            except valuate.Unknown:
                continue
        return self.add('UNDECIDED', name, anchor, 'cannot show %s' % show(c)[:300])

    def same(self, name, anchor, it, st, got, want, effects=False, **kw):
        """two computations (functions of a state) have the same outcome from st: value, external effects in order,
        and the condition under which each kind of exception leaves them"""
        outs = []
        for th in (got, want):
            v, s, raises = it.run(lambda z: it.freeze(th(z), z), st.copy())
            log = None
            if s is not None and effects:
                log = mk('frz', 'list', effect_segs(it.freeze_segs(s.heap[LOG][1][len(st.heap[LOG][1]):], s), effects))
            rs = {}
            for r in raises:
                k = r.exc.args[0] if r.exc.op == 'exc' else show(r.exc)
                cs = without_first([x for x in r.st.pc if x not in st.pc])
                c = FALSE if inconsistent(State({}, st.pc + tuple(cs))) else and_(*cs)
                rs.setdefault(k, []).append((c, r.where))
            outs.append((v, s, log, rs))
        (v, s, log, rs), (w, s2, log2, ws) = outs
        ok = True
        for k in sorted(set(rs) | set(ws)):
            a = or_(*[c for c, _ in rs.get(k, [])])
            b = or_(*[c for c, _ in ws.get(k, [])])
            where = ', '.join(sorted(set(x for _, x in rs.get(k, []))))
            a, b = split_ne(a), split_ne(b)
            if k in ws:
                ok &= self.eq('%s: raises %s exactly when it should' % (name, k), anchor, a, b, st, **kw)
            else:
                z = State({}, st.pc)
                z.assume(a)
                ok &= self.never('%s: no %s' % (name, k), anchor, z, '%s raised at %s' % (k, where), **kw)
        if (v is None) != (w is None):
            return self.add('REFUTED', name, anchor, 'never completes' if v is None else 'completes, should raise')
        if v is None:
            return ok
        z = State({}, st.pc)
        for c in s.pc + s2.pc:
            if c not in z.pc:
                z.assume(c)
        ok &= self.eq(name, anchor, v, w, z, **kw)
        if effects:
            ok &= self.eq('%s: external effects' % name, anchor, log, log2, z, **kw)
        return ok

    def must(self, name, anchor, ok, detail=''):
        """a fact read off the summary exactly"""
        return self.add('PROVED' if ok else 'REFUTED', name, anchor, '' if ok else detail)

    def stopped(self, name, anchor, it, r, k, st, done):
        """whoever takes k values of the generator r and stops leaves a state that is done"""
        states, raises = it.stopped(r, k, st.copy())
        for x in raises:
            if not (x.exc.op == 'exc' and x.exc.args[0] == 'GeneratorExit'):
                self.never('%s: no exception' % name, anchor, State({}, x.st.pc), '%s at %s' % (show(x.exc)[:80], x.where))
        for z in states:
            self.must(name, anchor, done(z), 'it is not when the consumer stops after %d' % k)

    def never(self, name, anchor, st, detail='', seeds=range(240), **kw):
        """no input reaches st"""
        st = State({}, unify(erase(st.pc))[0])
        if not refine(st) or inconsistent(st) or by_cases(st, inconsistent, (), [320]):
            return self.add('PROVED', name, anchor)
        new = unmodelled(st.pc)
        if new:
            return self.add('UNDECIDED', name, anchor, 'depends on %s, which is not modelled' % ', '.join(sorted(new)))
        for v in valuate.models(st.pc, seeds, **kw):
            return self.add('REFUTED', name, anchor, '%s [when %s]' % (detail, valuate.describe(v)))
        return self.add('UNDECIDED', name, anchor, detail)


def split_ne(c):
    """x != 0 as x < 0 or x > 0 among the alternatives of a condition"""
    if c.op == 'or':
        return or_(*[split_ne(x) for x in c.args])
    if c.op == 'not' and c.args[0].op == 'eq0' and lin_parts(c.args[0].args[0]) is not None:
        d = c.args[0].args[0]
        return or_(ge0(sub(d, ONE)), ge0(sub(neg(d), ONE)))
    return c


def first_facts(e):
    """what exists(j, n, c) says about first(j, n, c)"""
    j, n, c = e.args
    f = mk('first', j, n, c, kind='int')
    k = subst(c, {j: f})
    return [ge0(f), ge0(sub(sub(n, f), ONE))] + (list(k.args) if k.op == 'and' else [k])


def without_first(cs):
    """drop what follows from the definition of first(...)"""
    for e in [x for x in cs if x.op == 'exists']:
        known = first_facts(e)
        cs = [x for x in cs if x is e or x not in known]
    return [y for y in (_given_first(x) if x.op == 'or' else x for x in cs) if y is not TRUE]


def _given_first(x):
    """(forall not c) or y, with y read under what then is known of first(c)"""
    for f in x.args:
        if f.op == 'forall':
            e = not_(f)
            if e.op == 'exists':
                k = facts_of((e,) + tuple(first_facts(e)))
                ds = [k.decide(y) if y is not f else None for y in x.args]
                if any(d is True for d in ds):
                    return TRUE
                x = or_(*[y for y, d in zip(x.args, ds) if d is not False])
                if x.op != 'or':
                    return x
    return x


BUILTIN_METHODS = {m for c in (str, bytes, list, tuple, dict, set, int, float) for m in dir(c) if not m.startswith('__')}


def unmodelled(t):
    """library functions a term leaves uninterpreted"""
    out, seen = set(), set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'app' and x.args[0].op == 'ext':
                out.add(x.args[0].args[0])
            elif x.op == 'app' and x.args[0].op == 'attr' and x.args[0].args[1] in BUILTIN_METHODS:
                out.add('.' + x.args[0].args[1])
            go(x.args)
    go(t)
    return out


def erase(t):
    """value of a term, forgetting object identity (copies denote what they copy)"""
    memo = {}

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                if x.op == 'copyof':
                    r = go(x.args[1])
                elif x.op in ('const', 'sym', 'bv', 'ext', 'fn', 'cls', 'mod', 'phi'):
                    r = x
                else:
                    r = rebuild(x, go)
                    if r.op == 'frz' and r.args[0] in ('list', 'dict') and len(r.args[1]) == 1 and \
                            r.args[1][0][0] == 'spl':
                        r = r.args[1][0][1]
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(t)


def equal(s, g, w):
    x, y = s.simp(g), s.simp(w)
    if x is y or alpha(x) is alpha(y):
        return True
    x, y = erase(x), erase(y)
    if x is y or alpha(x) is alpha(y):
        return True
    m = constants(s.pc)
    if m:
        x, y = s.simp(subst_any(x, m)), s.simp(subst_any(y, m))
    return x is y or alpha(x) is alpha(y)


def components(x, y):
    """pairs of terms whose equality makes x and y equal"""
    if x is y:
        return []
    if isinstance(x, T) and isinstance(y, T) and x.op == y.op and (
            x.op == 'tup' or x.op == 'frz' and x.args[0] == y.args[0] == 'list'):
        a, b = x.args[-1], y.args[-1]
        if len(a) == len(b) and all(p[0] == q[0] == 'el' for p, q in zip(a, b)):
            return [c for p, q in zip(a, b) for c in components(p[1], q[1])]
    return [(x, y)]


def constants(pc):
    """numbers known to equal something else: a substitution that eliminates them"""
    m = {}
    for c in pc:
        if c.op != 'eq0':
            continue
        t = subst_any(c.args[0], m)
        if t.op == 'lin':
            for x, k in t.args[1]:
                if k in (1, -1):
                    m = {y: subst_any(z, {x: mul(sub(t, mul(x, const(k))), const(-k))}) for y, z in m.items()}
                    m[x] = mul(sub(t, mul(x, const(k))), const(-k))
                    break
        elif t.op != 'const':
            m[t] = ZERO
    return m


def atoms(t, out, seen):
    """gate conditions of a term: atomic conditions its value is selected by"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'gs':
            cond_atoms(t[1], out)
        if len(t) == 4 and t[0] == 'gen':
            return atoms(t[2], out, seen)
        for x in t:
            atoms(x, out, seen)
        return
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    if t.op == 'ite':
        cond_atoms(t.args[0], out)
    elif t.op in ('and', 'or', 'not'):
        cond_atoms(t, out)
    elif t.op in ('max', 'min') and all(lin_parts(a) is not None for a in t.args):
        cond_atoms(ge0(sub(*t.args)), out)
    elif t.op in BINDERS:
        return
    for a in t.args:
        if isinstance(a, tuple):
            for s in a:
                if isinstance(s, tuple) and s and s[0] == 'gs':
                    cond_atoms(s[1], out)
                if isinstance(s, tuple) and s and s[0] == 'gen':
                    atoms(s[2], out, seen)
                    continue
                atoms(s, out, seen)
        else:
            atoms(a, out, seen)


def cond_atoms(c, out):
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            cond_atoms(x, out)
    elif c.op == 'ite':
        for x in c.args:
            cond_atoms(x, out)
    elif c.op != 'const' and c not in out:
        out.append(c)


def by_cases(st, test, terms, budget):
    """test(state) holds in every case of a finite partition by the gate conditions of terms"""
    if test(st):
        return True
    if budget[0] <= 0:
        return False
    out = []
    for t in terms:
        atoms(st.simp(t), out, set())
    for c in st.pc:
        if c.op in ('or', 'ite'):
            cond_atoms(c, out)
    for c in out:
        if st.decide(c) is not None or free_bvs(c):
            continue
        for d in (c, not_(c)):
            budget[0] -= 1
            s = st.copy()
            s.assume(d)
            if not refine(s) or inconsistent(s):
                continue
            if not by_cases(s, test, terms, budget):
                return False
        return True
    return False


def refine(st):
    """simplify the disjunctive facts of st under its literal facts; False when they contradict"""
    for _ in range(6):
        lits = tuple(c for c in st.pc if c.op not in ('or', 'ite'))
        rest = [c for c in st.pc if c.op in ('or', 'ite')]
        new = State({}, lits)
        for c in rest:
            d = new.simp(c)
            if d is FALSE:
                return False
            if d is not TRUE:
                new.assume(d)
        if FALSE in new.pc:
            return False
        if new.pc == st.pc:
            break
        st.pc = new.pc
    return True


_fb = {}


def free_bvs(t):
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= free_bvs(x)
        if t and t[0] == 'gen' and len(t) == 4:
            r -= {t[1]}
        return r
    if not isinstance(t, T):
        return frozenset()
    r = _fb.get(t)
    if r is None:
        if t.op == 'bv':
            r = frozenset([t])
        else:
            r = free_bvs(tuple(t.args)) if t.args and t.args[0] != 'gen' else free_bvs(tuple(t.args[1:]))
            if t.op in BINDERS:
                r -= {t.args[0]}
        _fb[t] = r
    return r


def inconsistent(st):
    pc = st.pc
    for i, c in enumerate(pc):
        if c is FALSE or facts_of(pc[:i] + pc[i + 1:]).decide(c) is False:
            return True
    return False


def unify(*xs):
    """make closed subterms that differ only in the names of bound indices identical"""
    reps, memo, has = {}, {}, {}

    def binds(x):
        r = has.get(x)
        if r is None:
            if isinstance(x, T):
                r = has[x] = x.op in BINDERS or any(binds(a) for a in x.args)
            elif isinstance(x, tuple):
                r = bool(x) and x[0] == 'gen' and len(x) == 4 or any(binds(a) for a in x)
            else:
                r = False
        return r

    def go(x):
        if isinstance(x, T):
            if not binds(x):
                return x
            r = memo.get(x)
            if r is None:
                r = rebuild(x, go)
                if not free_bvs(r):
                    r = reps.setdefault(alpha(r), r)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return [go(x) for x in xs]


_al = {}


def alpha(t):
    """rename bound indices by the nesting depth of what they bind: equal results for equal terms up to renaming"""
    return _alpha(t)[0]


def _alpha(x):
    """(renamed term, depth of binders in it)"""
    if isinstance(x, T):
        if x.op in ('bv', 'const', 'sym', 'ext', 'fn', 'cls', 'mod', 'phi'):
            return x, 0
        r = _al.get(x)
        if r is None:
            h = 0
            args = {}
            for a in x.args:
                if isinstance(a, (T, tuple)):
                    b, k = _alpha(a)
                    args[a] = b
                    h = max(h, k)
            if x.op in BINDERS:
                h += 1
                m = {x.args[0]: mk('bv', -h, kind='int')}
                if x.op == 'fold':
                    for i, sp in enumerate(x.args[2]):
                        m[sp[0]] = mk('phi', -h, i, None, kind=sp[0].kind)
                args = {a: _sub_any(b, m) for a, b in args.items()}
            r = rebuild(x, lambda a: args.get(a, a) if isinstance(a, (T, tuple)) else a), h
            _al[x] = r
        return r
    if isinstance(x, tuple):
        rs = [_alpha(y) for y in x]
        h = max([k for _, k in rs], default=0)
        out = tuple(b for b, _ in rs)
        if x and x[0] == 'gen' and len(x) == 4 and isinstance(x[1], T):
            h += 1
            m = {x[1]: mk('bv', -h, kind='int')}
            out = tuple(_sub_any(b, m) for b in out)
        return out, h
    return x, 0


def _sub_any(b, m):
    if isinstance(b, tuple):
        return tuple(_sub_any(y, m) for y in b)
    return subst(b, m) if isinstance(b, T) else b


# ---------------------------------------------------------------------- known findings
def level_of(pid):
    with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
        return dict((c['property'], c['level']) for c in json.load(f)['checks']).get(pid, 'other')


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def finish(chk, t0, assumptions=(), rule=''):
    tier = os.environ.get('VERIF_TIER', chk.tier)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    viol = []
    knownhit = []
    for r in chk.results:
        if r[0] == 'REFUTED':
            k = [x for x in chk.known if x[0] == r[1]]
            (knownhit if k else viol).append(r)
    und = [r for r in chk.results if r[0] == 'UNDECIDED']
    proved = [r for r in chk.results if r[0] == 'PROVED']
    funcs = set()
    for it in chk.interps:
        funcs |= it.visited_funcs
    funcs |= chk.funcs
    ev = {
        'property': chk.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level_of(chk.pid),
        'coverage': {
            'obligations': len(chk.results) - len(knownhit),
            'discharged': len(proved),
            'undecided': [list(r[1:]) for r in und],
            'known_findings': [list(r[1:]) for r in knownhit],
            'checker_cmd': 'python3 /verif/check.py %s' % chk.pid,
            'trusted_base': ['CPython ast module', '/verif/engine (value-flow interpreter and library models)'],
            'rule': rule,
            'functions_analysed': sorted(funcs),
            'calls_resolved': chk.calls + sum(i.visited_calls for i in chk.interps),
            'statements_interpreted': sum(i.steps for i in chk.interps),
            'modules_parsed': len(program().modules),
            'counts': chk.counts,
            'samples': ['%s @ %s' % (r[1], r[2]) for r in proved[:400]],
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    with open(os.path.join(VERIF, 'evidence', chk.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r in und:
        print('UNDECIDED %s @ %s: %s' % r[1:])
    for r in knownhit:
        text = [x[1] for x in chk.known if x[0] == r[1]][0]
        print('KNOWN-FINDING: property=%s %s' % (chk.pid, text))
    print('%s: %d obligations, %d proved, %d refuted, %d undecided (%d functions, %.1fs)' % (
        chk.pid, len(chk.results), len(proved), len(viol), len(und), len(funcs), ev['wall_s']))
    if viol:
        path = os.path.join(VERIF, 'evidence', chk.pid + '.violation.txt')
        with open(path, 'w') as f:
            for r in viol:
                f.write('REFUTED %s\n  at %s\n  %s\n' % r[1:])
        for r in viol:
            print('REFUTED %s @ %s: %s' % r[1:])
        print('VIOLATION property=%s replay=%s' % (chk.pid, path))
        return 1
    if not chk.results:
        print('analysis broken: nothing was analysed')
        return 2
    return 0


def first_difference(a, b, path=''):
    """innermost pair of differing subterms (for reports)"""
    a, b = (alpha(a), alpha(b)) if not path else (a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x is not y and x != y:
                return first_difference(x, y, path + '/%d' % i)
        return None
    if isinstance(a, T) and isinstance(b, T):
        if a is b:
            return None
        if a.op == b.op and len(a.args) == len(b.args):
            ds = [(i, x, y) for i, (x, y) in enumerate(zip(a.args, b.args)) if not (x is y or (not isinstance(x, T) and x == y))]
            if len(ds) == 1:
                i, x, y = ds[0]
                return first_difference(x, y, path + '/%s.%d' % (a.op, i))
    return path, a, b


def pretty(x):
    import re
    x = show(x) if isinstance(x, T) else repr(x)
    return re.sub(r"obj\('[\w.]+:(\w+)', ", r'\1(', x)


def narrow(x, y):
    """innermost differing parts of two values"""
    while isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        ds = [(p, q) for p, q in zip(x, y) if p != q]
        if len(ds) != 1:
            break
        x, y = ds[0]
    return x, y


def renumber(t):
    """number the results of impure calls in order of occurrence"""
    ids, memo = {}, {}

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                r = memo[x] = x if x.op in ('const', 'sym', 'bv', 'ext', 'fn', 'cls', 'mod', 'phi') else rebuild(x, go)
            return r
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == '#' and isinstance(x[1], T):
                return ('#', const(ids.setdefault(x[1], len(ids))))
            return tuple(go(y) for y in x)
        return x
    return go(t)


def effect_segs(segs, names):
    """the calls of the named external operations, and stores into external objects, in order"""
    out = []
    for g in segs:
        if g[0] == 'el' and g[1].op == 'ite':
            c, a, b = g[1].args
            for k, x in ((c, a), (not_(c), b)):
                r = effect_segs((('el', x),), names)
                if r:
                    out.append(('gs', k, r))
        elif g[0] == 'el':
            if g[1].op != 'tup':
                raise Undecided('unreadable effect %s' % show(g[1], 200))
            e = [x[1] for x in g[1].args[0]]
            f = e[1]
            n = f.args[1] if f.op == 'attr' else f.args[0].split('.')[-1] if f.op in ('ext', 'sym') else None
            if cval(e[0]) == 'call' and n not in names:
                continue
            if cval(e[0]) not in ('call', 'setattr', 'setitem', 'mutate') and cval(e[0]) not in names:
                continue
            out.append(g)
        elif g[0] == 'gs':
            r = effect_segs(g[2], names)
            if r:
                out.append(('gs', g[1], r))
        elif g[0] == 'gen':
            r = effect_segs(g[3], names)
            if r:
                out.append(('gen', g[1], g[2], r))
        else:
            out.append(g)
    return norm_segs(tuple(out))
