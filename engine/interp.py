"""Abstract interpreter: derives, for a function of /repo, the value-flow summary of its result and effects.

No code of /repo is imported or executed.  Branches are joined with gated terms, loops are summarised
by solving the recurrences of the locations they modify, calls to repository code are inlined
(bounded), calls to anything else are uninterpreted and logged as events."""
import ast
import os
import string
import builtins as _py

from .terms import *
from .facts import facts_of

LOG = 'LOG'


class Dead(Exception):
    """no abstract state reaches this point"""


class Undecided(Exception):
    """a construct the analysis does not model"""


class EngineLimit(Undecided):
    pass


# ---------------------------------------------------------------------------------- program model
class Mangler(ast.NodeTransformer):
    def __init__(self):
        self.cls = None

    def m(self, name):
        if self.cls and name.startswith('__') and not name.endswith('__'):
            return '_' + self.cls.lstrip('_') + name
        return name

    def visit_ClassDef(self, node):
        old, self.cls = self.cls, node.name
        node.body = [self.visit(x) for x in node.body]
        self.cls = old
        node.bases = [self.visit(x) for x in node.bases]
        node.name = self.m(node.name)
        return node

    def visit_Name(self, node):
        node.id = self.m(node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.m(node.attr)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.name = self.m(node.name)
        return node

    def visit_arg(self, node):
        node.arg = self.m(node.arg)
        return node

    def visit_keyword(self, node):
        self.generic_visit(node)
        if node.arg:
            node.arg = self.m(node.arg)
        return node


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.frame = None


class Program(object):
    def __init__(self, root='/repo', package='babylondigger'):
        self.root = root
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as h:
                    src = h.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    self.errors.append((p, str(e)))
                    continue
                tree = Mangler().visit(tree)
                self.modules[rel] = Module(rel, os.path.relpath(p, root), tree, src)


class Func(object):
    def __init__(self, node, module, fr, defaults, kwdefaults, name, cls=None):
        self.node, self.module, self.fr = node, module, fr
        self.defaults, self.kwdefaults, self.name, self.cls = defaults, kwdefaults, name, cls
        self.locals = local_names(node)
        self.is_gen = not isinstance(node, ast.Lambda) and has_yield(node)


class Cls(object):
    def __init__(self, name, module, bases, attrs, node, decorators):
        self.name, self.module, self.bases, self.attrs, self.node = name, module, bases, attrs, node
        self.decorators = decorators
        self.fields = None      # namedtuple fields


_loc_cache = {}


def local_names(node):
    r = _loc_cache.get(node)
    if r is not None:
        return r
    names = set()
    glob = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = node.body if isinstance(node.body, list) else [node.body]

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    r = _loc_cache[node] = names - glob
    return r


_gen_cache = {}


def has_yield(node):
    r = _gen_cache.get(node)
    if r is None:
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, (ast.Yield, ast.YieldFrom)) or walk(c):
                    return True
            return False
        r = _gen_cache[node] = any(isinstance(s, (ast.Yield, ast.YieldFrom)) or walk(s) for s in node.body
                                   if not isinstance(s, (ast.FunctionDef, ast.ClassDef)))
    return r


class Frame(object):
    __slots__ = ('ref', 'parent', 'module', 'locals', 'func')

    def __init__(self, ref, parent, module, locs, func):
        self.ref, self.parent, self.module, self.locals, self.func = ref, parent, module, locs, func


class State(object):
    __slots__ = ('heap', 'pc')

    def __init__(self, heap=None, pc=()):
        self.heap = {} if heap is None else heap
        self.pc = pc

    def copy(self):
        return State(dict(self.heap), self.pc)

    def become(self, o):
        self.heap, self.pc = o.heap, o.pc

    @property
    def facts(self):
        return facts_of(self.pc)

    def decide(self, c):
        return facts_of(self.pc).decide(c)

    def assume(self, c):
        d = self.decide(c)
        if d is True:
            return
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return
        self.pc = self.pc + (c,)

    def simp(self, t):
        return facts_of(self.pc).simp(t)


class Flow(object):
    def __init__(self):
        self.fall = None
        self.rets = []
        self.brks = []
        self.conts = []


class Raise(object):
    __slots__ = ('st', 'exc', 'node', 'where')

    def __init__(self, st, exc, node, where):
        self.st, self.exc, self.node, self.where = st, exc, node, where


def extra_guard(st, base_pc):
    return and_(*st.pc[len(base_pc):])


# ---------------------------------------------------------------------------------- interpreter
def canonical_open(f, args, kw):
    """open(...) with the defaults left out and the arguments named"""
    kw = dict(kw)
    for n, a in zip(('file', 'mode', 'buffering', 'encoding', 'errors', 'newline'), args):
        kw[n] = a
    if f.args[0] == 'codecs.open' or len(args) > 6 or any(a.op == 'star' for a in args):
        return f, args, kw
    m = kw.get('mode')
    if m is not None and m.op == 'const' and cval(m) in ('r', 'rt', 'tr'):
        del kw['mode']
    if m is not None and m.op == 'const' and isinstance(cval(m), str) and cval(m) in ('wt', 'tw'):
        kw['mode'] = const('w')
    e = kw.get('encoding')
    if e is not None and e.op == 'const' and isinstance(cval(e), str) and cval(e).lower().replace('_', '-') in ('utf8', 'utf-8', 'u8'):
        kw['encoding'] = const('utf-8')
    return mk('ext', 'open'), [kw.pop('file', NONE)], kw


class Interp(object):
    MAX_DEPTH = 45
    MAX_REC = 4

    def __init__(self, program, opaque=(), opaque_raises=False):
        self.program = program
        self.refc = 0
        self.funcs = {}
        self.fterm = {}
        self.classes = {}
        self.cterm = {}
        self.frames = {}
        self.collector = []
        self.close_at, self.closing, self.closed_early = None, {}, False
        self.stack = []
        self.thunks = {}
        self.captured = set()
        self.opaque = set(opaque)           # qualified names kept uninterpreted
        self.opaque_raises = opaque_raises
        self.typed = {}                     # class name -> expander(interp, st, objterm) -> ref term
        self.attr_model = {}                # (tag, attr) -> function(interp, st, base) -> term
        self.method_model = {}              # (class, name) -> function(interp, st, obj, args, kw) -> term
        self.iter_model = {}                # class -> function(interp, st, obj) -> segments
        self.loop_hook = None
        self.call_hook = None
        self.probe = None
        self.steps = 0
        self.max_steps = 400000
        self.visited_funcs = set()
        self.visited_calls = 0
        self.init = State({LOG: ('list', (), None)})
        self.modstate = {}
        from . import lib
        self.lib = lib
        self.curexc = []
        self._exp = {}
        self.exp_of = {}
        self.tmpl = {}

    # ------------------------------------------------------------ allocation
    def alloc(self, st, kind_, data, meta=None):
        self.refc += 1
        st.heap[self.refc] = (kind_, data, meta)
        return mk('ref', self.refc)

    def new_list(self, st, segs):
        return self.alloc(st, 'list', norm_segs(segs))

    def new_dict(self, st, dsegs):
        return self.alloc(st, 'dict', tuple(dsegs))

    def new_iter(self, st, segs):
        return self.alloc(st, 'iter', norm_segs(segs))

    def new_thunk(self, st, fn):
        i = fresh_id()
        self.thunks[i] = fn
        return self.alloc(st, 'iter', ('thunk', i))

    def obj(self, st, t):
        """heap object of a reference term, or None"""
        if t.op == 'ref':
            return st.heap.get(t.args[0])
        if t.op == 'iref':
            o = st.heap.get(t.args[0])
            if o is None:
                return None
            bvs = self.tmpl.get(t.args[0], ())
            m = dict(zip(bvs, t.args[1:]))
            memo = {}
            return (o[0], _sub_payload(o[1], m, memo), o[2])
        return None

    def log(self, st, *what):
        k, segs, m = st.heap[LOG]
        st.heap[LOG] = (k, segs + (('el', tup(*what)),), m)

    # ------------------------------------------------------------ modules
    def module(self, name):
        """execute a module body abstractly (once); returns its frame"""
        if name in self.modstate:
            return self.modstate[name]
        mod = self.program.modules.get(name)
        if mod is None:
            return None
        fr = Frame('m:' + name, None, mod, None, None)
        self.modstate[name] = fr
        st = self.init
        st.heap[fr.ref] = ('frame', {'__name__': const(name)}, None)
        # bind everything that can be bound; a statement the analysis cannot model leaves its names opaque
        for s in mod.tree.body:
            self._top(s, fr, st)
        return fr

    def define(self, src, name='spec'):
        """add a reference module (never part of /repo) to this interpreter"""
        mod = Module(name, '<%s>' % name, Mangler().visit(ast.parse(src)), src)
        fr = Frame('m:' + name, None, mod, None, None)
        self.modstate[name] = fr
        self.init.heap[fr.ref] = ('frame', {'__name__': const(name)}, None)
        for s in mod.tree.body:
            self._top(s, fr, self.init)
        return fr

    def _top(self, s, fr, st):
        saved = self.collector
        self.collector = []
        try:
            work = st.copy()
            flow = self.exec_block([s], fr, work)
            if flow.fall is not None:
                # modules loaded while executing this statement live in the shared initial state
                for k, v in st.heap.items():
                    if k not in flow.fall.heap or (isinstance(k, str) and k[:2] == 'm:' and k != fr.ref):
                        flow.fall.heap[k] = v
                st.become(flow.fall)
        except (Dead, Undecided):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    v = dict(st.heap[fr.ref][1])
                    v[n.id] = mk('ext', fr.module.name + '.' + n.id)
                    st.heap[fr.ref] = ('frame', v, None)
        finally:
            self.collector = saved

    def load_all(self):
        for n in sorted(self.program.modules):
            self.module(n)

    def glob(self, qual, st=None):
        """term bound to a module-level name 'pkg.mod:name'"""
        m, n = qual.split(':')
        fr = self.module(m)
        if fr is None:
            return None
        cur = self.init.heap[fr.ref][1].get(n.split('.')[0])
        for part in n.split('.')[1:]:
            if cur is None:
                return None
            cur = self.class_attr(self.classes[cur.args[0]], part) if cur.op == 'cls' else None
            if cur is not None and cur.op in ('cm', 'sm', 'prop'):
                cur = cur.args[0]
        return cur

    def start(self, *assumptions):
        s = self.init.copy()
        for a in assumptions:
            s.assume(a)
        return s

    # ------------------------------------------------------------ names
    def lookup(self, name, fr, st):
        f = fr
        while f is not None:
            if f.locals is None or name in f.locals:
                o = st.heap.get(f.ref)
                v = o[1].get(name) if o else None
                if v is not None and v is not UNDEF:
                    return v
                if f.locals is not None and v is UNDEF:
                    return mk('poison', 'unbound ' + name)
            f = f.parent
        o = st.heap.get('m:' + fr.module.name)
        if o and name in o[1]:
            return o[1][name]
        if name in self.lib.CONSTS:
            return self.lib.CONSTS[name]
        if hasattr(_py, name):
            return mk('ext', name)
        return mk('poison', 'undefined name ' + name)

    def bind(self, name, val, fr, st):
        f = fr
        while f.locals is not None and name not in f.locals and f.parent is not None:
            f = f.parent
        o = st.heap[f.ref]
        d = dict(o[1])
        d[name] = val
        st.heap[f.ref] = ('frame', d, None)

    # ------------------------------------------------------------ states: branch and merge
    def merge(self, states, base_pc):
        """join states whose path conditions extend base_pc; returns one state"""
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        guards = [extra_guard(s, base_pc) for s in states]
        acc = states[-1]
        heap = acc.heap
        for s, g in reversed(list(zip(states[:-1], guards[:-1]))):
            heap = self.merge_heaps(g, s.heap, heap)
        common = []
        for c in states[0].pc[len(base_pc):]:
            if all(c in s.pc for s in states[1:]):
                common.append(c)
        pc = base_pc + tuple(common)
        out = State(heap, pc)
        d = or_(*guards)
        if d is not TRUE and out.decide(d) is not True:
            out.assume(d)
        return out

    def merge_vals(self, pairs, base_pc):
        """[(state, value)] -> value of the join"""
        v = pairs[-1][1]
        for s, x in reversed(pairs[:-1]):
            v = ite(extra_guard(s, base_pc), x, v)
        return v

    def merge_heaps(self, g, ha, hb):
        out = dict(hb)
        for k, a in ha.items():
            b = hb.get(k)
            if b is None:
                out[k] = a
            elif a is not b and a != b:
                out[k] = self.merge_obj(g, a, b)
        return out

    def merge_obj(self, g, a, b):
        ka, da, ma = a
        kb, db, mb = b
        if ka != kb:
            return (ka, da, ma) if ka == kb else ('poison', None, None)
        if ka in ('frame', 'inst'):
            d = {}
            for k in list(da) + [k for k in db if k not in da]:
                x, y = da.get(k, UNDEF), db.get(k, UNDEF)
                d[k] = x if x is y else ite(g, x, y)
            return (ka, d, ma)
        if ka == 'iter' and ((da and da[0] == 'thunk') or (db and db[0] == 'thunk')):
            if da == db:
                return a
            return ('poison', None, None)
        i = 0
        while i < len(da) and i < len(db) and da[i] == db[i]:
            i += 1
        pre, ra, rb = da[:i], da[i:], db[i:]
        if ka == 'dict':
            return (ka, pre + merge_dsegs(g, ra, rb), ma)
        segs = list(pre)
        la, lb = lit_els(ra), lit_els(rb)
        if la is not None and lb is not None and len(la) == len(lb):
            segs += [('el', ite(g, x, y)) for x, y in zip(la, lb)]
        else:
            if ra:
                segs.append(('gs', g, ra))
            if rb:
                segs.append(('gs', not_(g), rb))
        return (ka, norm_segs(segs), ma)

    def branch(self, st, c, ft, ff):
        """run ft on st+c and ff on st+not c (each returns a value); merge into st; returns joined value"""
        c = st.simp(c)
        d = st.decide(c)
        if d is True:
            return ft(st)
        if d is False:
            return ff(st)
        base = st.pc
        outs = []
        for cond, f in ((c, ft), (not_(c), ff)):
            s = st.copy()
            s.assume(cond)
            if not self.feasible(s, base):
                continue
            try:
                v = f(s)
                outs.append((s, v))
            except Dead:
                pass
        if not outs:
            raise Dead()
        v = self.merge_vals(outs, base)
        st.become(self.merge([s for s, _ in outs], base))
        return st.simp(v)

    def feasible(self, s, base):
        return True

    def do_raise(self, st, exc, node, fr):
        where = ''
        if fr is not None:
            where = '%s:%s' % (fr.module.path, getattr(node, 'lineno', '?'))
        self.collector.append(Raise(st.copy(), exc, node, where))
        raise Dead()

    def raise_if(self, st, c, excname, node, fr):
        """fork off a raise under c; st continues under not c"""
        c = st.simp(c)
        d = st.decide(c)
        if d is False:
            return
        s = st.copy()
        s.assume(c)
        where = '%s:%s' % (fr.module.path, getattr(node, 'lineno', '?')) if fr is not None else ''
        self.collector.append(Raise(s, mk('exc', excname, ()), node, where))
        if d is True:
            raise Dead()
        st.assume(not_(c))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr, st):
        flow = Flow()
        base = st.pc
        cur = st
        for s in stmts:
            self.steps += 1
            if self.steps > self.max_steps:
                raise EngineLimit('analysis budget exceeded')
            try:
                f = self.exec_stmt(s, fr, cur)
            except Dead:
                cur = None
                break
            flow.rets += f.rets
            flow.brks += f.brks
            flow.conts += f.conts
            cur = f.fall
            if cur is None:
                break
        flow.fall = cur
        return flow

    def exec_stmt(self, s, fr, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s at %s:%s' % (type(s).__name__, fr.module.path, s.lineno))
        r = m(s, fr, st)
        if r is None:
            r = Flow()
            r.fall = st
        return r

    def s_Expr(self, s, fr, st):
        self.ev(s.value, fr, st)

    def s_Pass(self, s, fr, st):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st)

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr, st), fr, st)

    def s_AugAssign(self, s, fr, st):
        tgt = s.target
        if isinstance(tgt, ast.Name):
            old = self.lookup(tgt.id, fr, st)
        elif isinstance(tgt, ast.Attribute):
            base = self.ev(tgt.value, fr, st)
            old = self.get_attr(base, tgt.attr, fr, st, tgt)
        elif isinstance(tgt, ast.Subscript):
            base = self.ev(tgt.value, fr, st)
            idx = self.ev(tgt.slice, fr, st)
            old = self.get_item(base, idx, fr, st, tgt)
        else:
            raise Undecided('augmented assignment')
        v = self.ev(s.value, fr, st)
        o = self.obj(st, old)
        if isinstance(s.op, ast.Add) and o is not None and o[0] == 'list':
            segs = self.iter_segs(v, st, fr, s)
            self.list_set(st, old, o[1] + tuple(segs))
            new = old
        else:
            new = self.binop(s.op, old, v, fr, st, s)
        if isinstance(tgt, ast.Name):
            self.bind(tgt.id, new, fr, st)
        elif isinstance(tgt, ast.Attribute):
            self.set_attr(base, tgt.attr, new, fr, st, tgt)
        else:
            self.set_item(base, idx, new, fr, st, tgt)

    def s_Return(self, s, fr, st):
        v = self.ev(s.value, fr, st) if s.value is not None else NONE
        f = Flow()
        f.rets.append((st, v))
        return f

    def s_If(self, s, fr, st):
        c = self.truth(self.ev(s.test, fr, st), st, fr)
        c = st.simp(c)
        d = st.decide(c)
        if d is True:
            return self.exec_block(s.body, fr, st)
        if d is False:
            return self.exec_block(s.orelse, fr, st) if s.orelse else None
        base = st.pc
        a = st.copy()
        a.assume(c)
        b = st
        b.assume(not_(c))
        fa = self.exec_block(s.body, fr, a)
        fb = self.exec_block(s.orelse, fr, b)
        f = Flow()
        f.rets = fa.rets + fb.rets
        f.brks = fa.brks + fb.brks
        f.conts = fa.conts + fb.conts
        f.fall = self.merge([fa.fall, fb.fall], base)
        return f

    def s_Assert(self, s, fr, st):
        c = self.truth(self.ev(s.test, fr, st), st, fr)
        d = st.decide(c)
        if d is True:
            return
        b = st.copy()
        b.assume(not_(c))
        self.collector.append(Raise(b, mk('exc', 'AssertionError', ()), s, '%s:%s' % (fr.module.path, s.lineno)))
        if d is False:
            raise Dead()
        st.assume(c)

    def s_Raise(self, s, fr, st):
        if s.exc is None:
            e = self.curexc[-1] if self.curexc else mk('exc', 'RuntimeError', ())
        else:
            e = self.ev(s.exc, fr, st)
            if e.op == 'ext':
                e = mk('exc', e.args[0], ())
            elif e.op == 'cls':
                e = self.call(e, [], {}, fr, st, s)
            elif e is NOTIMPLEMENTED:
                e = mk('exc', 'TypeError', ())
        self.do_raise(st, e, s, fr)

    def s_Break(self, s, fr, st):
        f = Flow()
        f.brks.append(st)
        return f

    def s_Continue(self, s, fr, st):
        f = Flow()
        f.conts.append(st)
        return f

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.bind(t.id, UNDEF, fr, st)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, fr, st)
                if isinstance(t.slice, ast.Slice):
                    self.set_slice(base, t.slice, (), fr, st)
                    continue
                idx = self.ev(t.slice, fr, st)
                self.lib.del_item(self, base, idx, fr, st, t)
            else:
                raise Undecided('del')

    def s_Import(self, s, fr, st):
        for al in s.names:
            if al.asname:
                v = self.modref(al.name)
                self.sync(st)
                self.bind(al.asname, v, fr, st)
            else:
                top = al.name.split('.')[0]
                self.modref(al.name)
                v = self.modref(top)
                self.sync(st)
                self.bind(top, v, fr, st)

    def s_ImportFrom(self, s, fr, st):
        base = s.module or ''
        if s.level:
            parts = fr.module.name.split('.')
            parts = parts[:-s.level] if not fr.module.path.endswith('__init__.py') else parts[:len(parts) - s.level + 1]
            base = '.'.join(parts + ([s.module] if s.module else []))
        for al in s.names:
            if al.name == '*':
                raise Undecided('import *')
            nm = al.asname or al.name
            if base in self.program.modules:
                self.module(base)
                f = self.modstate[base]
                v = self.init.heap[f.ref][1].get(al.name)
                if v is None and base + '.' + al.name in self.program.modules:
                    v = self.modref(base + '.' + al.name)
                if v is None:
                    v = mk('poison', 'no %s in %s' % (al.name, base))
                # modules imported while executing: make their bindings visible in st
                self.sync(st)
            else:
                v = mk('ext', base + '.' + al.name)
                v = self.lib.ALIASES.get(v.args[0], v)
            self.bind(nm, v, fr, st)

    def sync(self, st):
        for k, v in self.init.heap.items():
            if k not in st.heap:
                st.heap[k] = v

    def modref(self, name):
        if name in self.program.modules:
            self.module(name)
            return mk('mod', name)
        return self.lib.ALIASES.get(name, mk('ext', name))

    def s_FunctionDef(self, s, fr, st):
        f = self.make_func(s, fr, st, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr, st)
            if dv.op == 'ext':
                n = dv.args[0].split('.')[-1]
                if n == 'property':
                    f = mk('prop', f)
                    continue
                if n == 'classmethod':
                    f = mk('cm', f)
                    continue
                if n == 'staticmethod':
                    f = mk('sm', f)
                    continue
                if n in ('abstractmethod', 'wraps', 'lru_cache', 'contextmanager', 'total_ordering'):
                    if n != 'contextmanager':
                        continue
            f = mk('decorated', f, dv)
        self.bind(s.name, f, fr, st)

    s_AsyncFunctionDef = None

    def make_func(self, node, fr, st, name):
        defaults = [self.ev(d, fr, st) for d in node.args.defaults]
        kwd = [self.ev(d, fr, st) if d is not None else None for d in node.args.kw_defaults]
        key = (id(node), fr.ref, tuple(defaults), tuple(kwd))
        t = self.fterm.get(key)
        if t is None:
            fn = Func(node, fr.module, fr, defaults, kwd, name)
            i = len(self.funcs) + 1
            self.funcs[i] = fn
            fn._node = node
            t = mk('fn', i)
            self.fterm[key] = t
        f = fr
        while f is not None:
            self.captured.add(f.ref)
            f = f.parent
        return t

    def s_ClassDef(self, s, fr, st):
        bases = []
        for b in s.bases:
            v = self.ev(b, fr, st)
            if v.op in ('cls', 'ext'):
                bases.append(v)
        self.refc += 1
        cref = 'c%d' % self.refc
        st.heap[cref] = ('frame', {}, None)
        cfr = Frame(cref, fr, fr.module, None, None)
        # class body names are not visible to methods: methods close over fr
        attrs = {}
        body_fr = _ClassFrame(cref, fr, fr.module)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                self.s_FunctionDef_in_class(x, fr, body_fr, st)
            else:
                fl = self.exec_stmt(x, body_fr, st)
                if fl.fall is not None and fl.fall is not st:
                    st.become(fl.fall)
        attrs = dict(st.heap[cref][1])
        key = (id(s), fr.ref, tuple(sorted((k, v._h) for k, v in attrs.items())))
        t = self.cterm.get(key)
        decs = []
        for d in s.decorator_list:
            dv = self.ev(d, fr, st)
            if dv.op == 'ext':
                decs.append(dv.args[0])
        if t is None:
            c = Cls(s.name, fr.module, bases, attrs, s, decs)
            qual = fr.module.name + ':' + s.name
            i = qual if qual not in self.classes else qual + '#%d' % len(self.classes)
            self.classes[i] = c
            c.id = i
            t = mk('cls', i)
            self.cterm[key] = t
            for v in attrs.values():
                f = v.args[0] if v.op in ('prop', 'cm', 'sm') else v
                if f.op == 'fn':
                    self.funcs[f.args[0]].cls = t
        del st.heap[cref]
        self.bind(s.name, t, fr, st)

    def s_FunctionDef_in_class(self, s, fr, body_fr, st):
        f = self.make_func(s, fr, st, s.name)
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter'):
                f = mk('decorated', f, mk('ext', d.attr))
                continue
            dv = self.ev(d, body_fr, st)
            n = dv.args[0].split('.')[-1] if dv.op == 'ext' else ''
            if n == 'property':
                f = mk('prop', f)
            elif n == 'classmethod':
                f = mk('cm', f)
            elif n == 'staticmethod':
                f = mk('sm', f)
            elif n in ('abstractmethod',):
                pass
            else:
                f = mk('decorated', f, dv)
        d = dict(st.heap[body_fr.ref][1])
        d[s.name] = f
        st.heap[body_fr.ref] = ('frame', d, None)

    # ------------------------------------------------------------ with / try
    def s_With(self, s, fr, st):
        return self._with(s, list(s.items), fr, st)

    def _with(self, s, items, fr, st):
        if not items:
            return self.exec_block(s.body, fr, st)
        it = items[0]
        ctx = self.ev(it.context_expr, fr, st)
        o = self.obj(st, ctx)
        inst = o is not None and o[0] == 'inst'
        self.log(st, const('enter'), ctx)
        if inst and self.find_attr(ctx, '__enter__', st) is not None:
            val = self.call_method(ctx, '__enter__', [], fr, st, s)
        else:
            val = ctx
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, fr, st)
        saved = self.collector
        self.collector = []
        base = st.pc
        flow = self._with(s, items[1:], fr, st)
        raised, self.collector = self.collector, saved

        def leave(x, exc):
            self.log(x, const('exit'), ctx)
            if inst and self.find_attr(ctx, '__exit__', x) is not None:
                a = [NONE, NONE, NONE] if exc is None else [mk('ext', 'exctype'), exc, mk('ext', 'tb')]
                self.call_method(ctx, '__exit__', a, fr, x, s)
        for r in raised:
            try:
                leave(r.st, r.exc)
                self.collector.append(r)
            except Dead:
                pass
        return self._after(flow, leave)

    def _after(self, flow, fn):
        out = Flow()

        def go(x):
            try:
                fn(x, None)
                return True
            except Dead:
                return False
        if flow.fall is not None and go(flow.fall):
            out.fall = flow.fall
        out.rets = [(x, v) for x, v in flow.rets if go(x)]
        out.brks = [x for x in flow.brks if go(x)]
        out.conts = [x for x in flow.conts if go(x)]
        return out

    def s_Try(self, s, fr, st):
        saved = self.collector
        self.collector = []
        base = st.pc
        flow = self.exec_block(s.body, fr, st)
        raised, self.collector = self.collector, []
        out = Flow()
        out.rets, out.brks, out.conts = list(flow.rets), list(flow.brks), list(flow.conts)
        falls = []
        if flow.fall is not None:
            if s.orelse:
                f2 = self.exec_block(s.orelse, fr, flow.fall)
                out.rets += f2.rets
                out.brks += f2.brks
                out.conts += f2.conts
                if f2.fall is not None:
                    falls.append(f2.fall)
            else:
                falls.append(flow.fall)
        unhandled = self.collector
        self.collector = []
        for r in raised:
            pending = [r]
            for h in s.handlers:
                m = self.exc_match(r.exc, h.type, fr, r.st)
                if m is None:
                    raise Undecided('exception match')
                if m:
                    x = r.st
                    if h.name:
                        self.bind(h.name, r.exc, fr, x)
                    self.curexc.append(r.exc)
                    try:
                        fh = self.exec_block(h.body, fr, x)
                    finally:
                        self.curexc.pop()
                    out.rets += fh.rets
                    out.brks += fh.brks
                    out.conts += fh.conts
                    if fh.fall is not None:
                        falls.append(fh.fall)
                    pending = []
                    break
            unhandled += pending
        unhandled += self.collector
        self.collector = saved
        out.fall = self.merge(falls, base) if falls else None
        if s.finalbody:
            final = Flow()
            falls = []

            def fin(x):
                f = self.exec_block(s.finalbody, fr, x)
                final.rets += f.rets
                final.brks += f.brks
                final.conts += f.conts
                return f.fall
            if out.fall is not None:
                final.fall = fin(out.fall)
            for x, v in out.rets:
                y = fin(x)
                if y is not None:
                    final.rets.append((y, v))
            for x in out.brks:
                y = fin(x)
                if y is not None:
                    final.brks.append(y)
            for x in out.conts:
                y = fin(x)
                if y is not None:
                    final.conts.append(y)
            for r in unhandled:
                y = fin(r.st)
                if y is not None:
                    self.collector.append(Raise(y, r.exc, r.node, r.where))
            return final
        self.collector += unhandled
        return out

    def exc_name(self, e, st):
        if e.op == 'exc':
            return e.args[0]
        o = self.obj(st, e)
        if o is not None and o[0] == 'inst':
            return o[2]
        return None

    def exc_match(self, e, typ, fr, st):
        if typ is None:
            return True
        tv = self.ev(typ, fr, st)
        cands = [x[1] for x in tv.args[0]] if tv.op == 'tup' else [tv]
        n = self.exc_name(e, st)
        for c in cands:
            if isinstance(n, str):
                if n == 'Exception*':
                    if c.op == 'ext' and c.args[0] in ('Exception', 'BaseException'):
                        return True
                    continue
                if c.op == 'ext':
                    a, b = getattr(_py, n, None), getattr(_py, c.args[0], None)
                    if a is None or b is None:
                        if n == c.args[0]:
                            return True
                        continue
                    if issubclass(a, b):
                        return True
            elif n is not None:
                if c.op == 'cls' and c in self.mro(n):
                    return True
                if c.op == 'ext' and c.args[0] in ('Exception', 'BaseException'):
                    return True
        return False

    # ------------------------------------------------------------ loops
    def s_For(self, s, fr, st):
        it = self.ev(s.iter, fr, st)
        if self.loop_hook is not None:
            r = self.loop_hook(self, s, it, fr, st)
            if r is not None:
                return r
        segs = self.iter_segs(it, st, fr, s)

        def body(x, el):
            self.assign(s.target, el, fr, x)
            return self.exec_block(s.body, fr, x)
        return self.loop(segs, body, s.orelse, fr, st)

    def loop(self, segs, body, orelse, fr, st):
        base = st.pc
        out = Flow()
        brks = []
        cur = self._loop_segs(norm_segs(segs), body, fr, st, out, brks)
        falls = []
        if cur is not None:
            if orelse:
                f = self.exec_block(orelse, fr, cur)
                out.rets += f.rets
                out.brks += f.brks
                out.conts += f.conts
                if f.fall is not None:
                    falls.append(f.fall)
            else:
                falls.append(cur)
        falls += brks
        out.fall = self.merge(falls, base) if falls else None
        return out

    def _loop_segs(self, segs, body, fr, st, out, brks):
        """run body over all segments; returns fall-through state (or None)"""
        cur = st
        for seg in segs:
            if cur is None:
                return None
            base = cur.pc
            if seg[0] == 'el':
                try:
                    f = body(cur, seg[1])
                except Dead:
                    return None
                out.rets += f.rets
                brks += f.brks
                cur = self.merge(([f.fall] if f.fall is not None else []) + f.conts, base)
            elif seg[0] == 'gs':
                c = cur.simp(seg[1])
                d = cur.decide(c)
                if d is False:
                    continue
                if d is True:
                    cur = self._loop_segs(seg[2], body, fr, cur, out, brks)
                    continue
                a = cur.copy()
                a.assume(c)
                b = cur
                b.assume(not_(c))
                a = self._loop_segs(seg[2], body, fr, a, out, brks)
                cur = self.merge([a, b], base)
            elif seg[0] == 'gen':
                bv, n, inner = seg[1], seg[2], seg[3]

                def run(x, j, inner=inner, bv=bv):
                    f = Flow()
                    bk = []
                    o2 = Flow()
                    f.fall = self._loop_segs(subst_segs(inner, {bv: j}), body, fr, x, o2, bk)
                    f.rets = o2.rets
                    f.brks = bk
                    return f
                cur = self.generic_loop(n, run, fr, cur, out, brks)
            else:
                x = seg[1]

                def run(s2, j, x=x):
                    try:
                        f = body(s2, item(x, j))
                    except Dead:
                        f = Flow()
                    return f
                cur = self.generic_loop(len_(x), run, fr, cur, out, brks)
        return cur

    def generic_loop(self, n, run, fr, st, out, brks):
        """summarise  for j in 0..n-1: run(j)  starting in st"""
        n = st.simp(n)
        if st.decide(ge0(sub(ZERO, n))) is True:
            return st
        if n.op == 'const' and cval(n) <= 12:
            cur = st
            for i in range(cval(n)):
                base = cur.pc
                f = run(cur, const(i))
                out.rets += f.rets
                brks += f.brks
                cur = self.merge(([f.fall] if f.fall is not None else []) + f.conts, base)
                if cur is None:
                    return None
            return cur
        loopid = fresh_id()
        j = fresh_bv()
        base = st.pc
        mods = {}          # loc -> phi term
        carried = {}       # variable holding a container that the body replaces -> stand-in for what it holds
        for attempt in range(10):
            s0 = st.copy()
            for loc, phi in mods.items():
                set_loc(s0.heap, loc, phi)
            s0.assume(ge0(sub(sub(n, j), ONE)))
            if n.op == 'max' and ZERO in n.args:
                s0.assume(ge0(sub(sub(n.args[1] if n.args[0] is ZERO else n.args[0], j), ONE)))
            start = s0.copy()
            for loc, h in carried.items():
                set_loc(s0.heap, loc, self.alloc(s0, *s0.heap[h]))
            saved, self.collector = self.collector, []
            try:
                f = run(s0, j)
            finally:
                raised, self.collector = self.collector, saved
            for e in ([f.fall] if f.fall is not None else []) + f.conts:
                for loc, h in carried.items():
                    self.hand_over(e, loc, h, get_loc(start.heap, loc), start)
            end = self.merge(([f.fall] if f.fall is not None else []) + f.conts, start.pc)
            new = {}
            for e in ([end] if end is not None else []):
                for loc in diff_locs(start.heap, e.heap):
                    if loc not in mods:
                        new[loc] = True
            handed = False
            for loc in list(new):
                iv = get_loc(st.heap, loc) if loc[0] == 'f' else None
                if iv is not None and iv.op == 'ref' and st.heap[iv.args[0]][0] in ('list', 'dict', 'set'):
                    nv = get_loc(end.heap, loc)
                    if nv is not None and nv.op == 'ref' and nv.args[0] not in start.heap and self.sole(st, iv, loc, {}):
                        st = st.copy()
                        carried[loc] = self.alloc(st, *st.heap[iv.args[0]]).args[0]
                        del new[loc]
                        handed = True
            if handed:
                continue
            retyped = False
            if not new and end is not None:
                for loc, phi in list(mods.items()):
                    nv = get_loc(end.heap, loc)
                    if loc[0] == 'f' and kind(phi) is not None and nv is not None and kind(nv) != kind(phi):
                        mods[loc] = mk('phi', loopid, loc, None)
                        retyped = True
            if not new and not retyped:
                break
            for loc in new:
                iv = get_loc(st.heap, loc)
                k = kind(iv) if loc[0] == 'f' and iv is not None else None
                if k not in ('int', 'str', 'bool'):
                    k = None
                mods[loc] = mk('phi', loopid, loc, k, kind=k)
        else:
            raise Undecided('loop does not stabilise')

        # ---- objects allocated in the body become templates indexed by j
        inner_tmpl = dict(self.tmpl)
        if end is not None:
            made = {r: True for r in end.heap if isinstance(r, int) and r not in start.heap}
            if made:
                end = end.copy()
                for r in made:
                    self.tmpl[r] = (j,) + tuple(self.tmpl.get(r, ()))
                self.reindex(end, made, j)

        # ---- solve recurrences
        closed = {}        # phi -> f(j) term  (value at start of iteration j)
        closed_segs = {}
        if end is not None:
            self.solve(mods, st, end, j, n, closed, closed_segs, loopid)
        else:
            for loc, phi in mods.items():
                if loc[0] == 'f':
                    closed[phi] = get_loc(st.heap, loc)
                else:
                    closed_segs[phi] = st.heap[loc[1]][1]

        def at(idx):
            m = {phi: subst(c, {j: idx}) for phi, c in closed.items()}
            for phi, segs in closed_segs.items():
                if segs is not None:
                    m[phi] = frz_as(st.heap, phi, subst_segs_raw(segs, {j: idx}))
            m[j] = idx
            return m
        exits = [('ret', x, v) for x, v in f.rets] + [('brk', x, None) for x in f.brks] + \
                [('raise', r.st, r) for r in raised]
        guards = []
        mj = at(j)
        for kind_, x, v in exits:
            g = subst(and_(*x.pc[len(start.pc):]), mj)
            g = start.simp(g)
            guards.append(g)
        anyexit = or_(*guards) if guards else FALSE

        def close(x, v, m, extra):
            """state and value of an exit taken in the iteration m describes"""
            own = [r for r in x.heap if isinstance(r, int) and r not in start.heap]
            ren = {}
            for r in own:
                self.refc += 1
                ren[r] = self.refc
                if r in inner_tmpl:
                    self.tmpl[self.refc] = inner_tmpl[r]
            y = State({}, base)
            memo, memo2 = {}, {}

            def ref(t):
                if t.args[0] in ren:
                    return mk(t.op, ren[t.args[0]], *t.args[1:])
                return t
            for r, o in x.heap.items():
                so = start.heap.get(r)
                if r in ren or o is not so or any(l[1] == r for l in mods):
                    o = (o[0], _sub_payload(map_refs_payload(o[1], ref, memo2) if ren else o[1], m, memo), o[2])
                y.heap[ren.get(r, r)] = o
            for r, r2 in ren.items():
                t = self.exp_of.get(mk('ref', r))
                if t is not None:
                    self.exp_of[mk('ref', r2)] = subst(t, m)
            for c in extra:
                y.assume(c)
            if v is not None:
                v = subst(map_refs(v, ref, memo2) if ren else v, m)
            return y, v

        # ---- exits at the first index satisfying an exit condition
        if exits:
            ex = exists(j, n, anyexit)
            if st.decide(ex) is not False:
                times = n.args[1 if n.args[0] is ZERO else 0] if n.op == 'max' and ZERO in n.args else n
                fi = mk('first', j, times, anyexit, kind='int')
                for (kind_, x, v), g in zip(exits, guards):
                    m = at(fi)
                    gg = subst(g, {j: fi}) if g is not anyexit else TRUE
                    y, w = close(x, v.exc if kind_ == 'raise' else v, m,
                                 [ex, gg, ge0(fi), ge0(sub(sub(times, fi), ONE))])
                    if kind_ == 'ret':
                        out.rets.append((y, w))
                    elif kind_ == 'brk':
                        brks.append(y)
                    else:
                        self.collector.append(Raise(y, w, v.node, v.where))
            noexit = [not_(ex)]
        else:
            noexit = []
        if end is None:
            # no normal completion of an iteration: loop completes only when it runs zero times / exits
            y = st.copy()
            for c in noexit:
                y.assume(c)
            if y.decide(ge0(sub(n, ONE))) is True and not noexit:
                return None
            return y

        # ---- normal completion: phi at n
        fin = at(n)
        res = st.copy()
        touched = set(l[1] for l in mods)
        for r, o in end.heap.items():
            if r in start.heap and r not in touched:
                continue
            if r in touched:
                continue
            memo = {}
            res.heap[r] = (o[0], _sub_payload(o[1], {p: c for p, c in mj.items() if p is not j}, memo), o[2])
        for loc, phi in mods.items():
            if loc[0] == 'f':
                val = fin.get(phi)
                if val is None:
                    val = mk('mu', loopid, loc)
                set_loc(res.heap, loc, val)
            else:
                segs = closed_segs.get(phi)
                o = res.heap[loc[1]]
                if segs is None:
                    p = (('spl', mk('mu', loopid, loc)),)
                else:
                    p = subst_segs_raw(segs, {j: n})
                res.heap[loc[1]] = (o[0], p, o[2])
        for loc, h in carried.items():
            set_loc(res.heap, loc, mk('ref', h))
        for c in noexit:
            res.assume(c)
        return res

    def sole(self, st, x, loc, before):
        """only the variable at loc holds x"""
        r = x.args[0]
        for k, o in st.heap.items():
            if before.get(k) is o:
                continue
            if isinstance(o[1], dict):
                if any(holds_ref(v, r) for n, v in o[1].items() if (k, n) != loc[1:]):
                    return False
            elif o[1] and o[1][0] == 'thunk':
                if k > r:
                    return False
            elif holds_ref(o[1], r):
                return False
        return True

    def hand_over(self, e, loc, h, iv, start):
        """the container at loc is that of the next iteration; nothing else may hold it"""
        nv = get_loc(e.heap, loc)
        if nv is None or nv.op != 'ref' or nv.args[0] in start.heap or e.heap[nv.args[0]][0] != e.heap[h][0] or \
                not self.sole(e, nv, loc, start.heap):
            raise Undecided('a container shared by iterations')
        e.heap[h] = e.heap[nv.args[0]]
        set_loc(e.heap, loc, iv)

    def reindex(self, st, esc, j):
        """references to per-iteration objects become references indexed by the iteration"""
        def ref(t):
            if t.args[0] not in esc:
                return t
            return mk('iref', t.args[0], j, *t.args[1:])
        memo = {}
        for r, o in list(st.heap.items()):
            q = map_refs_payload(o[1], ref, memo)
            if q is not o[1]:
                st.heap[r] = (o[0], q, o[2])

    def solve(self, mods, st, end, j, n, closed, closed_segs, loopid):
        pending = dict(mods)
        nxt = {}
        for loc, phi in mods.items():
            nxt[phi] = get_loc(end.heap, loc) if loc[0] == 'f' else end.heap[loc[1]][1]
        phis = set(mods.values())

        def phis_in(x):
            s = leaves_of(x) if isinstance(x, T) else seg_leaves(x)
            return s & phis
        progress = True
        while pending and progress:
            progress = False
            m = dict(closed)
            for p, segs in closed_segs.items():
                m[p] = frz_as(st.heap, p, segs)
            for loc, phi in list(pending.items()):
                if loc[0] == 'f':
                    nv = subst(nxt[phi], m)
                    iv = get_loc(st.heap, loc)
                    r = self.solve_scalar(phi, nv, iv, j, n, phis_in)
                    if r is not None:
                        closed[phi] = r
                        del pending[loc]
                        progress = True
                else:
                    nv = _sub_payload(nxt[phi], m, {})
                    if end.heap[loc[1]][0] == 'dict':
                        pass
                    iv = st.heap[loc[1]][1]
                    if iv and iv[0] == 'thunk':
                        continue
                    r = self.solve_segs(phi, nv, iv, j, n, phis_in, end.heap[loc[1]][0])
                    if r is not None:
                        closed_segs[phi] = r
                        del pending[loc]
                        progress = True
        if not pending:
            return
        # ---- no closed form: the value is the fold of the body over the iterations
        m = dict(closed)
        for p, segs in closed_segs.items():
            m[p] = frz_as(st.heap, p, segs)
        k = fresh_bv()
        m[j] = k
        body = {}
        for loc, phi in pending.items():
            if loc[0] == 'f':
                iv = get_loc(st.heap, loc)
                body[phi] = ('f', UNDEF if iv is None else iv, subst(nxt[phi], m))
            else:
                kd, iv = end.heap[loc[1]][0], st.heap[loc[1]][1]
                if kd in ('list', 'dict') and not (iv and iv[0] == 'thunk') and not (nxt[phi] and nxt[phi][0] == 'thunk'):
                    body[phi] = (kd, tuple(iv), _sub_payload(nxt[phi], m, {}))
        for loc, phi in pending.items():
            need = [phi]
            for p in need:
                if p not in body:
                    need = None
                    break
                for q in ordered_phis(body[p][2], phis):
                    if q not in need:
                        need.append(q)
            if need is None:
                t = mk('mu', loopid, loc, j)
            else:
                kd = body[phi][0]
                t = mk('fold', k, j, tuple((p,) + body[p] for p in need), kind=kind(phi) if kd == 'f' else kd)
            if loc[0] == 'f':
                closed[phi] = t
            else:
                closed_segs[phi] = (('spl', t),)

    def solve_scalar(self, phi, nv, iv, j, n, phis_in):
        if iv is None:
            iv = UNDEF
        deps = phis_in(nv)
        if nv is phi:
            return iv
        if not deps:
            # overwritten in every iteration
            prev = subst(nv, {j: sub(j, ONE)})
            return ite(ge0(sub(j, ONE)), prev, iv)
        if deps != {phi}:
            return None
        # phi + e(j)
        d = _delta(nv, phi)
        if d is not None and not phis_in(d):
            if not occurs(j, d) and kind(d) == 'int':
                if d.op == 'const':
                    return add(iv, mul(j, d))
            k = fresh_bv()
            return add(iv, sum_(k, j, subst(d, {j: k})))
        # string accumulation phi ++ e(j)
        if nv.op == 'cat' and nv.args[0] is phi and not any(phi in leaves_of(a) for a in nv.args[1:]):
            k = fresh_bv()
            rest = subst(cat(*nv.args[1:]), {j: k})
            return cat(iv, mk('sgen', k, j, rest, kind='str'))
        # keep-first / last-match:  ite(g, X, phi) with g, X free of phi
        r = _gated(nv, phi)
        if r is not None:
            g, x = r
            if not phis_in(g) and not phis_in(x):
                k = fresh_bv()
                gk = subst(g, {j: k})
                last = mk('last', k, j, gk, kind='int')
                return ite(exists(k, j, gk), subst(x, {j: last}), iv)
        return None

    def solve_segs(self, phi, nv, iv, j, n, phis_in, kind_):
        if nv and nv[0] == ('spl', phi):
            rest = nv[1:]
            if phis_in(rest):
                r = self.solve_counted(phi, rest, iv, j, phis_in, kind_)
                if r is not None:
                    return r
                if kind_ == 'dict' and not iv and j_free(n, j):
                    return self.solve_tally(phi, rest, j, phis_in)
                return None
            k = fresh_bv()
            out = tuple(iv) + (('gen', k, j, _sub_payload(rest, {j: k}, {})),)
            return out if kind_ == 'dict' else norm_segs_keep(out)
        # reset in some iterations etc.
        if not phis_in(nv):
            prev = _sub_payload(nv, {j: sub(j, ONE)}, {})
            g = ge0(sub(j, ONE))
            return (('gs', g, tuple(prev)), ('gs', not_(g), tuple(iv)))
        return None

    def solve_counted(self, phi, rest, iv, j, phis_in, kind_):
        """every iteration adds elements that depend on how many there are already"""
        plain = self.lib._plain(phi)
        if kind_ == 'dict':
            d = rest[-1]
            inner = d[2] if d[0] == 'gs' else (d,)
            if len(rest) != 1 or iv or len(inner) != 1 or inner[0][0] != 'kv':
                return None
            key = inner[0][1]
            if phis_in(key) or not self.lib.distinct_key(key, j):
                return None
            has = self.lib.in_(key, phi)
            rest = subst_any(rest, {has: FALSE})
            if rest[0][0] == 'gs':
                if rest[0][1] is not TRUE:
                    return None
                rest = rest[0][2]
            n = j
        elif kind_ == 'list':
            per = seq_len(norm_segs(rest))
            if phis_in(per) or occurs(j, per):
                return None
            n = add(seq_len(norm_segs(iv)), mul(j, per))
        else:
            return None
        rest = subst_any(rest, {len_(plain): n, len_(phi): n, mk('len', self.lib.keys_(phi), kind='int'): n})
        if phis_in(rest):
            return None
        k = fresh_bv()
        out = tuple(iv) + (('gen', k, j, _sub_payload(rest, {j: k}, {})),)
        return out if kind_ == 'dict' else norm_segs_keep(out)

    def solve_tally(self, phi, rest, j, phis_in):
        """d[key] = d.get(key, 0) + w in every iteration"""
        key, val = rest[-1][1:3] if rest[-1][0] == 'kv' else (None, None)
        if key is None or phis_in(key):
            return None
        has, old = self.lib.in_(key, phi), item(self.lib._plain(phi), key)
        for d in rest[:-1]:
            if d[0] != 'gs' or d[1] is not not_(has) or len(d[2]) != 1 or d[2][0][0] != 'kv' or d[2][0][1] is not key:
                return None
        w = subst_any(val, {has: FALSE})
        if w.op == 'add' and w.args[0] is ZERO and kind(w.args[1]) == 'int':
            w = w.args[1]
        x = subst_any(val, {has: TRUE})
        if phis_in(w) or kind(w) != 'int' or x is not add(old, w) and x is not add(w, old):
            return None
        k = fresh_bv()
        return (('spl', tally(k, j, subst(key, {j: k}), subst(w, {j: k}))),)

    def s_While(self, s, fr, st):
        if self.loop_hook is not None:
            r = self.loop_hook(self, s, None, fr, st)
            if r is not None:
                return r
        base = st.pc
        out = Flow()
        brks = []
        cur = st
        steady = isinstance(s.test, ast.Constant)      # every iteration so far went the one way
        for i in range(200 if steady else 40):
            c = self.truth(self.ev(s.test, fr, cur), cur, fr)
            d = cur.decide(c)
            if d is False:
                break
            steady = steady and not brks and not out.rets
            if d is None or (isinstance(s.test, ast.Constant) and i > 6 and not steady):
                return self._while_generic(s, fr, cur, out, brks, base)
            b2 = cur.pc
            f = self.exec_block(s.body, fr, cur)
            out.rets += f.rets
            brks += f.brks
            cur = self.merge(([f.fall] if f.fall is not None else []) + f.conts, b2)
            if cur is None:
                break
        else:
            raise Undecided('while loop')
        falls = ([cur] if cur is not None else []) + brks
        out.fall = self.merge(falls, base) if falls else None
        return out

    def _while_generic(self, s, fr, st, out, brks, base):
        # try: the condition is an upper bound on an induction variable
        def run(x, j):
            f = Flow()
            try:
                c = self.truth(self.ev(s.test, fr, x), x, fr)
            except Dead:
                return f
            self._conds.append((c, x.pc))
            y = x.copy()
            y.assume(not_(c))
            x.assume(c)
            f2 = self.exec_block(s.body, fr, x)
            f2.brks.append(y)
            return f2
        inf = mk('inf', fresh_id(), kind='int')
        self._conds = []
        probe_out, probe_brks = Flow(), []
        saved, self.collector = self.collector, []
        s1 = st.copy()
        n = None
        try:
            solved = self._probe_while(s, fr, s1)
            n = solved
        finally:
            self.collector = saved
        if n is None:
            # unknown trip count
            res = self.generic_loop(inf, run, fr, st, out, brks)
            falls = brks
            out.fall = self.merge(falls, base) if falls else None
            return out

        def run2(x, j):
            try:
                c = self.truth(self.ev(s.test, fr, x), x, fr)
                x.assume(c)
            except Dead:
                return Flow()
            return self.exec_block(s.body, fr, x)
        cur = self.generic_loop(n, run2, fr, st, out, brks)
        falls = ([cur] if cur is not None else []) + brks
        if s.orelse:
            raise Undecided('while-else')
        out.fall = self.merge(falls, base) if falls else None
        return out

    def _probe_while(self, s, fr, st):
        """bound n such that the condition at iteration j is exactly j < n, or None"""
        inf = mk('inf', fresh_id(), kind='int')
        seen = []

        def run(x, j):
            try:
                c = self.truth(self.ev(s.test, fr, x), x, fr)
            except Dead:
                return Flow()
            seen.append((c, j))
            x.assume(c)
            return self.exec_block(s.body, fr, x)
        # reuse the recurrence solver with an unbounded domain, and read the condition off in closed form
        o2, b2 = Flow(), []
        self._closed_probe = None
        try:
            conds = self._closed_cond(run, fr, st, inf, seen)
        except Undecided:
            return None
        if conds is None:
            return None
        c, j = conds
        if c.op != 'ge0':
            return None
        p = lin_parts(c.args[0])
        if p is None or p[1].get(j) != -1:
            return None
        # c: e - j >= 0  <=>  j < e + 1
        n = add(add(c.args[0], j), ONE)
        if occurs(j, n):
            return None
        if st.decide(ge0(n)) is not True:
            n = mk('max', ZERO, n, kind='int')
        return n

    def _closed_cond(self, run, fr, st, n, seen):
        loopid = fresh_id()
        j = fresh_bv()
        mods = {}
        for attempt in range(10):
            s0 = st.copy()
            for loc, phi in mods.items():
                set_loc(s0.heap, loc, phi)
            start = s0.copy()
            del seen[:]
            saved, self.collector = self.collector, []
            try:
                f = run(s0, j)
            finally:
                self.collector = saved
            end = self.merge(([f.fall] if f.fall is not None else []) + f.conts, start.pc)
            if end is None:
                return None
            new = [l for l in diff_locs(start.heap, end.heap) if l not in mods]
            if not new:
                break
            for loc in new:
                iv = get_loc(st.heap, loc)
                k = kind(iv) if loc[0] == 'f' and iv is not None else None
                if k not in ('int', 'str', 'bool'):
                    k = None
                mods[loc] = mk('phi', loopid, loc, k, kind=k)
        closed, cs = {}, {}
        self.solve(mods, st, end, j, n, closed, cs, loopid)
        c = seen[-1][0]
        c = subst(c, closed)
        return c, j

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, fr, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(t.elts), fr, st, t, star[0] if star else None)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr, st)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, fr, st), t.attr, v, fr, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr, st)
            if isinstance(t.slice, ast.Slice):
                return self.set_slice(b, t.slice, self.iter_segs(v, st, fr, t), fr, st)
            self.set_item(b, self.ev(t.slice, fr, st), v, fr, st, t)
        else:
            raise Undecided('assignment target')

    def set_slice(self, b, sl, segs, fr, st):
        """b[lo:hi] = segs, in place"""
        o = self.obj(st, b)
        if o is None or o[0] != 'list' or b.op != 'ref' or sl.step is not None:
            raise Undecided('slice assignment')
        lo, hi = [self.ev(x, fr, st) if x is not None else NONE for x in (sl.lower, sl.upper)]
        if lo in (NONE, ZERO) and hi is NONE:
            st.heap[b.args[0]] = ('list', norm_segs(tuple(segs)), o[2])
            return
        els = lit_els(norm_segs(o[1]))
        if els is None or any(x.op != 'const' for x in (lo, hi)):
            raise Undecided('slice assignment')
        i, j, _ = slice(cval(lo), cval(hi)).indices(len(els))
        st.heap[b.args[0]] = ('list', norm_segs(tuple(('el', x) for x in els[:i]) + tuple(segs) +
                                               tuple(('el', x) for x in els[max(i, j):])), o[2])

    def unpack(self, v, n, fr, st, node, star=None):
        if v.op == 'ite':
            a = self.unpack(v.args[1], n, fr, st, node, star)
            b = self.unpack(v.args[2], n, fr, st, node, star)
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        o = self.obj(st, v)
        if v.op == 'tup' or o is not None or v.op in ('frz',):
            segs = self.iter_segs(v, st, fr, node)
            els = lit_els(segs)
            if els is not None and star is None and len(els) == n:
                return els
            if els is not None and star is not None and len(els) >= n - 1:
                k = len(els) - (n - 1)
                return els[:star] + [self.new_list(st, [('el', e) for e in els[star:star + k]])] + els[star + k:]
            if els is not None:
                self.do_raise(st, mk('exc', 'ValueError', ()), node, fr)
            ix = indexable(segs)
            if ix is not None and star is None:
                return [ix[1](const(i)) for i in range(n)]
            # zip(*x): each component is the sequence of the i-th items
            x = mk('frz', 'list', norm_segs(segs), kind='list')
            return [item(x, const(i)) for i in range(n)]
        if star is not None:
            raise Undecided('starred unpacking')
        return [item(v, const(i)) for i in range(n)]

    def set_attr(self, base, name, v, fr, st, node):
        if base.op == 'ite':
            def setter(b):
                def f(s):
                    self.set_attr(b, name, v, fr, s, node)
                    return NONE
                return f
            self.branch(st, base.args[0], setter(base.args[1]), setter(base.args[2]))
            return
        if base.op == 'obj':
            base = self.expand(base, st)
        o = self.obj(st, base)
        if base.op == 'ref' and o is not None and o[0] == 'inst':
            d = dict(o[1])
            d[name] = v
            st.heap[base.args[0]] = ('inst', d, o[2])
            return
        self.log(st, const('setattr'), base, const(name), self.freeze(v, st))

    def set_item(self, base, idx, v, fr, st, node):
        self.lib.set_item(self, base, idx, v, fr, st, node)

    def list_set(self, st, ref, segs):
        if ref.op != 'ref':
            raise Undecided('mutation of a per-iteration object')
        o = st.heap[ref.args[0]]
        st.heap[ref.args[0]] = (o[0], norm_segs(segs), o[2])

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s at %s:%s' % (type(e).__name__, fr.module.path, e.lineno))
        return m(e, fr, st)

    def e_Constant(self, e, fr, st):
        if e.value is Ellipsis:
            return mk('ext', 'Ellipsis')
        if isinstance(e.value, complex):
            raise Undecided('complex')
        return const(e.value)

    def e_Name(self, e, fr, st):
        return st.simp(self.lookup(e.id, fr, st))

    def e_NamedExpr(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        self.bind(e.target.id, v, fr, st)
        return v

    def e_Attribute(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        return self.get_attr(b, e.attr, fr, st, e)

    def e_Tuple(self, e, fr, st):
        return tupseq(self.elts(e.elts, fr, st))

    def e_List(self, e, fr, st):
        return self.new_list(st, self.elts(e.elts, fr, st))

    def e_Set(self, e, fr, st):
        return self.alloc(st, 'set', tuple(self.elts(e.elts, fr, st)))

    def elts(self, elts, fr, st):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs += self.iter_segs(self.ev(x.value, fr, st), st, fr, x)
            else:
                segs.append(('el', self.ev(x, fr, st)))
        return segs

    def e_Dict(self, e, fr, st):
        ds = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, fr, st)
                ds += list(self.lib.dict_segs(self, d, fr, st, e))
            else:
                kt = self.ev(k, fr, st)
                ds.append(('kv', kt, self.ev(v, fr, st)))
        return self.new_dict(st, self.lib.norm_dict(ds))

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, fr, st)
                spec = ''
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, fr, st)
                    spec = cval(sp) if sp.op == 'const' else '?'
                if v.conversion == ord('r'):
                    x = self.lib.repr_(self, x, fr, st)
                parts.append(self.lib.fmt(self, x, spec, fr, st))
        return cat(*parts)

    def e_FormattedValue(self, e, fr, st):
        return self.lib.fmt(self, self.ev(e.value, fr, st), '', fr, st)

    def e_Lambda(self, e, fr, st):
        return self.make_func(e, fr, st, '<lambda>')

    def e_IfExp(self, e, fr, st):
        c = self.truth(self.ev(e.test, fr, st), st, fr)
        return self.branch(st, c, lambda s: self.ev(e.body, fr, s), lambda s: self.ev(e.orelse, fr, s))

    def e_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.ev(e.values[i], fr, s)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, s, fr)
            if isand:
                return self.branch(s, c, lambda s2: go(i + 1, s2), lambda s2: v if not is_bool(v) else FALSE)
            return self.branch(s, c, lambda s2: v if not is_bool(v) else TRUE, lambda s2: go(i + 1, s2))
        return go(0, st)

    def e_UnaryOp(self, e, fr, st):
        v = self.ev(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v, st, fr))
        if isinstance(e.op, ast.USub):
            if v.op == 'const' and isinstance(cval(v), (int, float)):
                return const(-cval(v))
            return neg(v) if lin_parts(v) is not None else mk('neg', v, kind=kind(v))
        if isinstance(e.op, ast.UAdd):
            return v
        return mk('invert', v)

    def e_BinOp(self, e, fr, st):
        a = self.ev(e.left, fr, st)
        b = self.ev(e.right, fr, st)
        return self.binop(e.op, a, b, fr, st, e)

    def binop(self, op, a, b, fr, st, node):
        return self.lib.binop(self, type(op).__name__, a, b, fr, st, node)

    def e_Compare(self, e, fr, st):
        left = self.ev(e.left, fr, st)

        def go(i, left, s):
            right = self.ev(e.comparators[i], fr, s)
            c = self.lib.compare(self, type(e.ops[i]).__name__, left, right, fr, s, e)
            if i == len(e.ops) - 1:
                return c
            return self.branch(s, self.truth(c, s, fr), lambda s2: go(i + 1, right, s2), lambda s2: FALSE)
        return go(0, left, st)

    def e_Slice(self, e, fr, st):
        return mk('custom', 'slice', *[self.ev(x, fr, st) if x else NONE for x in (e.lower, e.upper, e.step)])

    def e_Subscript(self, e, fr, st):
        b = self.ev(e.value, fr, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fr, st) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, fr, st) if e.slice.upper else NONE
            sp = self.ev(e.slice.step, fr, st) if e.slice.step else NONE
            return self.lib.get_slice(self, b, lo, hi, sp, fr, st, e)
        if b.op in ('ext', 'cls') and not (b.op == 'ext' and b.args[0] in ()):
            return b            # typing subscripts
        return self.get_item(b, self.ev(e.slice, fr, st), fr, st, e)

    def get_item(self, b, i, fr, st, node):
        return st.simp(self.lib.get_item(self, b, i, fr, st, node))

    def e_Starred(self, e, fr, st):
        raise Undecided('starred')

    def e_Yield(self, e, fr, st):
        v = self.ev(e.value, fr, st) if e.value is not None else NONE
        self.do_yield(v, fr, st)
        return NONE

    def do_yield(self, v, fr, st):
        acc = self.lookup('$yield', fr, st)
        if acc.op != 'ref':
            raise Undecided('yield')
        o = st.heap[acc.args[0]]
        st.heap[acc.args[0]] = (o[0], o[1] + (('el', v),), o[2])
        self.log(st, const('yield'), v)
        self.abandon(acc, fr, st)

    def abandon(self, acc, fr, st):
        """the consumer closes the generator at its k-th value"""
        k = self.closing.get(acc.args[0])
        if k is None:
            return
        segs = st.heap[acc.args[0]][1]
        if any(x[0] != 'el' for x in segs):
            raise Undecided('number of values yielded')
        if len(segs) >= k:
            self.closed_early = True
            self.do_raise(st, mk('exc', 'GeneratorExit', ()), None, fr)

    def e_YieldFrom(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        acc = self.lookup('$yield', fr, st)
        k = self.closing.get(acc.args[0])
        if k is not None:
            n = st.heap[acc.args[0]][1]
            if any(x[0] != 'el' for x in n):
                raise Undecided('number of values yielded')
            self.close_at = k - len(n)
        segs = self.iter_segs(v, st, fr, e)
        self.close_at = None
        o = st.heap[acc.args[0]]
        st.heap[acc.args[0]] = (o[0], norm_segs(o[1] + tuple(segs)), o[2])
        self.abandon(acc, fr, st)
        return NONE

    # ---- comprehensions
    def e_ListComp(self, e, fr, st):
        return self.new_list(st, self.comp(e, fr, st))

    def e_SetComp(self, e, fr, st):
        return self.alloc(st, 'set', tuple(self.comp(e, fr, st)))

    def e_GeneratorExp(self, e, fr, st):
        # the outermost iterable is evaluated immediately, the rest on demand
        first = self.ev(e.generators[0].iter, fr, st)
        f = fr
        while f is not None:
            self.captured.add(f.ref)
            f = f.parent
        return self.new_thunk(st, lambda s: self.comp(e, fr, s, first))

    def e_DictComp(self, e, fr, st):
        segs = self.comp(e, fr, st)
        return self.new_dict(st, self.lib.norm_dict(pairs_to_dsegs(segs)))

    def comp(self, e, fr, st, first=None):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        self.refc += 1
        ref = 'k%d' % self.refc
        st.heap[ref] = ('frame', {}, None)
        cfr = Frame(ref, fr, fr.module, names, fr.func)
        acc = self.alloc(st, 'list', ())

        def level(i, s):
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    v = tup(self.ev(e.key, cfr, s), self.ev(e.value, cfr, s))
                else:
                    v = self.ev(e.elt, cfr, s)
                o = s.heap[acc.args[0]]
                s.heap[acc.args[0]] = ('list', o[1] + (('el', v),), None)
                f = Flow()
                f.fall = s
                return f
            g = e.generators[i]
            it = first if (i == 0 and first is not None) else self.ev(g.iter, cfr if i else fr, s)
            segs = self.iter_segs(it, s, fr, e)

            def body(x, el):
                self.assign(g.target, el, cfr, x)
                base = x.pc
                skip = []
                for c in g.ifs:
                    t = self.truth(self.ev(c, cfr, x), x, cfr)
                    d = x.decide(t)
                    if d is True:
                        continue
                    if d is False:
                        f = Flow()
                        f.fall = self.merge(skip + [x], base)
                        return f
                    y = x.copy()
                    y.assume(not_(t))
                    skip.append(y)
                    x.assume(t)
                f = level(i + 1, x)
                if skip:
                    f.fall = self.merge(([f.fall] if f.fall is not None else []) + skip, base)
                return f
            f = self.loop(segs, body, [], fr, s)
            return f
        f = level(0, st)
        if f.fall is None:
            raise Dead()
        if f.fall is not st:
            st.become(f.fall)
        segs = st.heap[acc.args[0]][1]
        if ref not in self.captured:
            st.heap.pop(ref, None)
        st.heap.pop(acc.args[0], None)
        return segs

    # ------------------------------------------------------------ truth
    def truth(self, v, st, fr):
        return self.lib.truth(self, v, st, fr)

    # ------------------------------------------------------------ classes and attributes
    def mro(self, ct):
        c = self.classes[ct.args[0]]
        if not hasattr(c, '_mro'):
            seqs = []
            for b in c.bases:
                if b.op == 'cls':
                    seqs.append(list(self.mro(b)))
            seqs.append([b for b in c.bases if b.op == 'cls'])
            out = [ct]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in x[1:] for x in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            c._mro = out
        return c._mro

    def ext_bases(self, ct):
        out = []
        for k in self.mro(ct):
            out += [b.args[0] for b in self.classes[k.args[0]].bases if b.op == 'ext']
        return out

    def class_attr(self, c, name):
        """lookup along the mro of Cls c"""
        ct = mk('cls', c.id)
        for k in self.mro(ct):
            a = self.classes[k.args[0]].attrs.get(name)
            if a is not None and a is not UNDEF:
                return a
        return None

    def class_of(self, t, st):
        o = self.obj(st, t)
        if o is not None and o[0] == 'inst':
            return o[2]
        if t.op == 'obj':
            return self.cls_named(t.args[0])
        return None

    def cls_named(self, qual):
        return mk('cls', qual)

    def find_attr(self, t, name, st):
        ct = self.class_of(t, st)
        if ct is None or ct.args[0] not in self.classes:
            return None
        return self.class_attr(self.classes[ct.args[0]], name)

    def expand(self, t, st):
        """heap instance standing for a typed symbolic object"""
        key = ('x', t)
        if key in self._exp and self._exp[key].args[0] in st.heap:
            return self._exp[key]
        # the object exists already: whatever its constructor demands held when it was built
        work = st.copy()
        saved, self.collector = self.collector, []
        try:
            if t.args[0] in self.typed:
                ref = self.typed[t.args[0]](self, work, t)
            else:
                ref = self.default_expand(t, work)
        finally:
            self.collector = saved
        for k, v in work.heap.items():
            if k not in st.heap:
                st.heap[k] = v
        if key in self._exp:
            # keep one identity per symbolic object
            old = self._exp[key]
            st.heap[old.args[0]] = st.heap[ref.args[0]]
            return old
        self._exp[key] = ref
        self.exp_of[ref] = t
        return ref

    def default_expand(self, t, st):
        ct = mk('cls', t.args[0])
        init = self.class_attr(self.classes[t.args[0]], '__init__')
        kw = {}
        if init is not None:
            fn = self.funcs[init.args[0]]
            a = fn.node.args
            names = [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]
            for n in names:
                kw[n] = attr(t, n)
        saved, self.collector = self.collector, []
        try:
            r = self.call(ct, [], kw, None, st, None)
        finally:
            self.collector = saved
        return r

    def get_attr(self, b, name, fr, st, node=None):
        if b.op == 'ite':
            return self.branch(st, b.args[0], lambda s: self.get_attr(b.args[1], name, fr, s, node),
                               lambda s: self.get_attr(b.args[2], name, fr, s, node))
        if b.op == 'poison':
            return b
        if b.op == 'mod':
            f = self.module(b.args[0])
            self.sync(st)
            v = st.heap[f.ref][1].get(name)
            if v is None and b.args[0] + '.' + name in self.program.modules:
                return self.modref(b.args[0] + '.' + name)
            if v is None:
                return mk('poison', 'no attribute %s in %s' % (name, b.args[0]))
            return v
        if b.op == 'ext':
            q = b.args[0] + '.' + name
            return self.lib.ALIASES.get(q, mk('ext', q))
        if b.op == 'obj':
            am = self.attr_model.get((b.args[0], name))
            if am is not None:
                return am(self, st, b)
            if (b.args[0], name) in self.method_model:
                return mk('pm', b, name)
            if b.args[0] in self.classes:
                ca = self.class_attr(self.classes[b.args[0]], name)
                if ca is not None and ca.op in ('cm', 'sm'):
                    return self.bind_attr(ca, b, mk('cls', b.args[0]))
            b = self.expand(b, st)
        if b.op == 'sym' or b.op in ('attr', 'app', 'item'):
            am = self.attr_model.get((None, name))
            if am is not None:
                r = am(self, st, b)
                if r is not None:
                    return r
        o = self.obj(st, b)
        if o is not None and o[0] == 'inst':
            if name == '__class__':
                return o[2]
            if name == '__dict__':
                raise Undecided('__dict__')
            ca = self.class_attr(self.classes[o[2].args[0]], name)
            if ca is not None and ca.op == 'prop':
                return self.call(ca.args[0], [b], {}, fr, st, node)
            if name in o[1] and o[1][name] is not UNDEF:
                return st.simp(o[1][name])
            if ca is not None:
                return self.bind_attr(ca, b, o[2])
            c = self.classes[o[2].args[0]]
            if c.fields is not None:
                return self.lib.nt_attr(self, b, o, name)
            ga = self.class_attr(c, '__getattr__')
            if ga is not None:
                return self.call(ga, [b, const(name)], {}, fr, st, node)
            if name.startswith('__') and name.endswith('__'):
                return mk('meth', b, name)
            eb = self.ext_bases(o[2])
            if any(x not in ('object', 'Exception') and not x.startswith('typing.') for x in eb):
                return attr(b, name)
            self.do_raise(st, mk('exc', 'AttributeError', (const(name),)), node, fr)
        if o is not None or b.op in ('frz', 'tup', 'meth') or kind(b) in ('str', 'int', 'float', 'bool', 'tuple', 'list', 'dict') \
                or b.op in ('cat', 'items', 'keys', 'values', 'copyof'):
            if name == '__class__':
                return mk('ext', {'str': 'str', 'int': 'int', 'tuple': 'tuple'}.get(kind(b), kind(b) or 'object'))
            return mk('meth', b, name)
        if b.op == 'cls':
            if name == '__name__':
                return const(self.classes[b.args[0]].name)
            ca = self.class_attr(self.classes[b.args[0]], name)
            if ca is None:
                if name in ('__init__', '__eq__', '__enter__', '__exit__', '__hash__', '__repr__', '__new__'):
                    return mk('ext', 'object.' + name)
                eb = self.ext_bases(b)
                if eb and any(x != 'object' for x in eb):
                    return mk('ext', eb[0] + '.' + name)
                return mk('poison', 'no attribute %s' % name)
            if ca.op == 'cm':
                return mk('bm', ca.args[0], b)
            if ca.op in ('sm', 'prop'):
                return ca.args[0]
            return ca
        if b.op == 'super':
            ct, self_ = b.args
            mro = self.mro(self.class_of(self_, st) if self_.op != 'cls' else self_)
            i = mro.index(ct)
            for k in mro[i + 1:]:
                a = self.classes[k.args[0]].attrs.get(name)
                if a is not None:
                    if a.op == 'prop':
                        return self.call(a.args[0], [self_], {}, fr, st, node)
                    return self.bind_attr(a, self_, self.class_of(self_, st) if self_.op != 'cls' else self_)
            return mk('ext', 'object.' + name)
        if b is NONE:
            if name in ('__repr__', '__str__'):
                return mk('meth', b, name)
            self.do_raise(st, mk('exc', 'AttributeError', (const(name),)), node, fr)
        if b.op == 'const':
            return mk('meth', b, name)
        if b.op == 'exc':
            return mk('attr', b, name)
        if b.op == 'fn' and name == '__name__':
            return const(self.funcs[b.args[0]].name)
        return attr(b, name)

    def bind_attr(self, ca, obj_, ct):
        if ca.op == 'fn':
            return mk('bm', ca, obj_)
        if ca.op == 'cm':
            return mk('bm', ca.args[0], ct)
        if ca.op == 'sm':
            return ca.args[0]
        return ca

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.make_super(e, fr, st)
        f = self.ev(e.func, fr, st)
        args = []
        opaque_star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr, st)
                segs = self.iter_segs(v, st, fr, a)
                els = lit_els(segs)
                if els is None:
                    args.append(mk('star', norm_segs(segs)))
                else:
                    args += els
            else:
                args.append(self.ev(a, fr, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr, st)
            if k.arg is None:
                ds = self.lib.dict_segs(self, v, fr, st, e)
                if all(d[0] == 'kv' and d[1].op == 'const' for d in ds):
                    for d in ds:
                        kw[cval(d[1])] = d[2]
                elif len(ds) == 1 and ds[0][0] == 'spl':
                    kw['**'] = ds[0][1]
                else:
                    kw['**'] = mk('frz', 'dict', tuple(ds), kind='dict')
            else:
                kw[k.arg] = v
        return st.simp(self.call(f, args, kw, fr, st, e))

    def make_super(self, e, fr, st):
        if e.args:
            return mk('super', self.ev(e.args[0], fr, st), self.ev(e.args[1], fr, st))
        f = fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.parent
        if f is None:
            raise Undecided('super')
        first = f.func.node.args.args[0].arg
        return mk('super', f.func.cls, st.heap[f.ref][1][first])

    def call_method(self, recv, name, args, fr, st, node, kw=None):
        f = self.get_attr(recv, name, fr, st, node)
        return st.simp(self.call(f, list(args), dict(kw or {}), fr, st, node))

    def call(self, f, args, kw, fr, st, node):
        self.visited_calls += 1
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kw, fr, st, node)
            if r is not None:
                return r
        op = f.op
        if op == 'fn':
            return self.inline(f, args, kw, fr, st, node)
        if op == 'bm':
            return self.inline(f.args[0], [f.args[1]] + args, kw, fr, st, node)
        if op == 'cls':
            return self.instantiate(f, args, kw, fr, st, node)
        if op == 'pm':
            return self.method_model[f.args[0].args[0], f.args[1]](self, st, f.args[0], args, kw)
        if op == 'ite':
            return self.branch(st, f.args[0], lambda s: self.call(f.args[1], args, kw, fr, s, node),
                               lambda s: self.call(f.args[2], args, kw, fr, s, node))
        if op in ('ext', 'meth', 'attrgetter', 'itemgetter', 'partial', 'methodcaller', 'ntcls'):
            return self.lib.call(self, f, args, kw, fr, st, node)
        if op in ('sm', 'cm', 'prop'):
            return self.call(f.args[0], args, kw, fr, st, node)
        o = self.obj(st, f)
        if o is not None and o[0] == 'inst':
            ca = self.class_attr(self.classes[o[2].args[0]], '__call__')
            if ca is not None:
                return self.call(mk('bm', ca, f), args, kw, fr, st, node)
        if f is NONE:
            self.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
        if op == 'poison':
            return f
        if op == 'attr' and f.args[1] in ('lower', 'upper', 'casefold') and not args and symkind(f.args[0]) == 'str' and \
                st.simp(eq(f.args[0], NONE)) is FALSE:
            return self.lib.strm(f.args[1], f.args[0])       # a text that may be missing, but is not here
        return self.opaque_call(f, args, kw, fr, st, node)

    def opaque_call(self, f, args, kw, fr, st, node, pure=False):
        if f.op == 'ext' and f.args[0] in ('open', 'io.open', 'codecs.open'):
            f, args, kw = canonical_open(f, args, kw)
        fargs = tuple(self.freeze(a, st, fr) for a in args)
        fkw = tuple(sorted((k, self.freeze(v, st, fr)) for k, v in kw.items()))
        r = mk('app', f, fargs, fkw, kind=self.lib.RESULT_KIND.get(f.args[0]) if f.op == 'ext' else None)
        name = f.args[1] if f.op == 'attr' else (f.args[0].split('.')[-1] if f.op == 'ext' else '')
        if name in self.lib.IMPURE:
            r = mk('app', f, fargs, fkw + (('#', const(fresh_id())),))
        if not pure:
            self.log(st, const('call'), f, tup(*fargs), mk('kw', fkw), r)
        if self.opaque_raises and not pure:
            s = st.copy()
            s.assume(mk('raises', fresh_id(), kind='bool'))
            where = '%s:%s' % (fr.module.path, getattr(node, 'lineno', '?')) if fr is not None else ''
            self.collector.append(Raise(s, mk('exc', 'Exception*', ()), node, where))
        return r

    def qual(self, fn):
        c = ''
        if fn.cls is not None:
            c = self.classes[fn.cls.args[0]].name + '.'
        return fn.module.name + ':' + c + fn.name

    def inline(self, f, args, kw, fr, st, node):
        fn = self.funcs[f.args[0]]
        q = self.qual(fn)
        if q in self.opaque:
            return self.opaque_call(mk('ext', q), args, kw, fr, st, node)
        if len(self.stack) > self.MAX_DEPTH or sum(1 for x in self.stack if x is fn.node) >= self.MAX_REC:
            return self.rec_call(f, args, kw, fr, st, node)
        self.visited_funcs.add(q)
        self.refc += 1
        ref = 'f%d' % self.refc
        vars_ = self.bind_params(fn, f, args, kw, fr, st, node)
        st.heap[ref] = ('frame', vars_, None)
        nfr = Frame(ref, fn.fr if fn.fr.locals is not None or fn.fr.parent is not None else None, fn.module, fn.locals, fn)
        if nfr.parent is None:
            nfr.parent = fn.fr
        if isinstance(fn.node, ast.Lambda):
            self.stack.append(fn.node)
            try:
                v = self.ev(fn.node.body, nfr, st)
            finally:
                self.stack.pop()
            self.drop_frame(ref, st)
            return v
        if fn.is_gen:
            def force(s):
                acc = self.alloc(s, 'list', ())
                if self.close_at is not None:
                    self.closing[acc.args[0]], self.close_at = self.close_at, None
                o = s.heap[ref]
                d = dict(o[1])
                d['$yield'] = acc
                s.heap[ref] = ('frame', d, None)
                g = Frame(ref, nfr.parent, fn.module, fn.locals | {'$yield'}, fn)
                self.run_body(fn, g, s)
                return s.heap[acc.args[0]][1]
            self.captured.add(ref)
            return self.new_thunk(st, force)
        v = self.run_body(fn, nfr, st)
        self.drop_frame(ref, st)
        return v

    def rec_call(self, f, args, kw, fr, st, node):
        return self.opaque_call(mk('rec', f), args, kw, fr, st, node)

    def drop_frame(self, ref, st):
        if ref not in self.captured:
            st.heap.pop(ref, None)

    def run_body(self, fn, nfr, st):
        base = st.pc
        self.stack.append(fn.node)
        try:
            flow = self.exec_block(fn.node.body, nfr, st)
        finally:
            self.stack.pop()
        outs = list(flow.rets)
        if flow.fall is not None:
            outs.append((flow.fall, NONE))
        if not outs:
            raise Dead()
        v = self.merge_vals(outs, base)
        st.become(self.merge([s for s, _ in outs], base))
        return st.simp(v)

    def bind_params(self, fn, f, args, kw, fr, st, node):
        a = fn.node.args
        vars_ = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        if any(x.op == 'star' for x in args):
            raise Undecided('*args of unknown length')
        if '**' in kw:
            # unknown keyword mapping: bind parameters to its items by name
            m = kw.pop('**')
            if a.kwarg is None and m.op != 'sym':
                raise Undecided('** of unknown mapping')
            unk = m
        else:
            unk = None
        rest = list(args)
        for i, n in enumerate(pos):
            if rest:
                vars_[n] = rest.pop(0)
            elif n in kw:
                vars_[n] = kw.pop(n)
            else:
                di = i - (len(pos) - len(fn.defaults))
                if unk is not None and di >= 0:
                    vars_[n] = ite(mk('in', const(n), unk, kind='bool'), item(unk, const(n)), fn.defaults[di])
                elif di >= 0:
                    vars_[n] = fn.defaults[di]
                elif unk is not None:
                    vars_[n] = item(unk, const(n))
                else:
                    self.do_raise(st, mk('exc', 'TypeError', (const('missing argument ' + n),)), node, fr)
        if rest:
            if a.vararg:
                vars_[a.vararg.arg] = tup(*rest)
            else:
                self.do_raise(st, mk('exc', 'TypeError', (const('too many arguments'),)), node, fr)
        elif a.vararg:
            vars_[a.vararg.arg] = tup()
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg in kw:
                vars_[x.arg] = kw.pop(x.arg)
            elif unk is not None:
                vars_[x.arg] = item(unk, const(x.arg))
            elif d is not None:
                vars_[x.arg] = d
            else:
                self.do_raise(st, mk('exc', 'TypeError', (const('missing keyword ' + x.arg),)), node, fr)
        if a.kwarg:
            ds = [('spl', unk)] if unk is not None else []
            vars_[a.kwarg.arg] = self.new_dict(st, ds + [('kv', const(k), v) for k, v in sorted(kw.items())])
        elif kw:
            self.do_raise(st, mk('exc', 'TypeError', (const('unexpected keyword ' + sorted(kw)[0]),)), node, fr)
        return vars_

    def instantiate(self, ct, args, kw, fr, st, node):
        c = self.classes[ct.args[0]]
        q = ct.args[0]
        if q in self.opaque:
            return self.opaque_call(mk('ext', q), args, kw, fr, st, node)
        if c.fields is not None:
            return self.lib.nt_new(self, ct, c, args, kw, fr, st, node)
        if any(b in ('Exception', 'ValueError', 'RuntimeError') for b in self.ext_bases(ct)):
            return self.alloc(st, 'inst', {'args': tup(*[x for x in args if x.op != 'star'])}, ct)
        ref = self.alloc(st, 'inst', {}, ct)
        init = self.class_attr(c, '__init__')
        if init is not None:
            self.call(mk('bm', init, ref), args, kw, fr, st, node)
        elif args or kw:
            if any(x != 'object' and not x.startswith('typing') for x in self.ext_bases(ct)):
                self.opaque_call(mk('ext', self.ext_bases(ct)[0]), [ref] + args, kw, fr, st, node)
            else:
                self.do_raise(st, mk('exc', 'TypeError', ()), node, fr)
        return ref

    # ------------------------------------------------------------ iteration
    def iter_segs(self, v, st, fr, node, consume=True):
        return self.lib.iter_segs(self, v, st, fr, node, consume)

    def force(self, ref, st, consume=True):
        o = st.heap[ref.args[0]]
        if o[0] == 'iter' and o[1] and o[1][0] == 'thunk':
            segs = self.thunks[o[1][1]](st)
            st.heap[ref.args[0]] = ('iter', () if consume else norm_segs(segs), o[2])
            return norm_segs(segs)
        if o[0] == 'iter':
            if consume:
                st.heap[ref.args[0]] = ('iter', (), o[2])
            return o[1]
        return None

    # ------------------------------------------------------------ freeze
    def freeze(self, t, st, fr=None, seen=()):
        """value of t as a heap-independent term"""
        if not isinstance(t, T):
            return t
        if t.op in ('ref', 'iref'):
            if t in seen:
                return mk('cyc')
            if t in self.exp_of:
                return self.exp_of[t]
            if t.op == 'iref':
                x = self.exp_of.get(mk('ref', t.args[0]))
                if x is not None:
                    return subst(x, dict(zip(self.tmpl.get(t.args[0], ()), t.args[1:])))
            o = self.obj(st, t)
            if o is None:
                return t
            seen = seen + (t,)
            k, d, m = o
            if k == 'iter' and d and d[0] == 'thunk':
                d = self.force(t, st, consume=False) if t.op == 'ref' else d
            if k in ('list', 'iter', 'set'):
                return mk('frz', k, self._frz_arg(d, st, fr, seen), kind='list' if k != 'set' else None)
            if k == 'dict':
                d = self._frz_arg(d, st, fr, seen)
                if len(d) == 1 and d[0][0] == 'spl' and kind(d[0][1]) == 'dict':
                    return d[0][1] if d[0][1].op == 'copyof' else mk('copyof', 'shallow', d[0][1], kind='dict')
                return mk('frz', k, d, kind='dict')
            if k == 'inst':
                return mk('frz', 'inst', m, tuple(sorted((n, self.freeze(v, st, fr, seen)) for n, v in d.items())), kind='obj')
            return t
        if t.op in ('const', 'sym', 'bv', 'ext', 'fn', 'cls', 'mod', 'phi'):
            return t
        if not has_ref(t):
            return t
        return rebuild(t, lambda a: self._frz_arg(a, st, fr, seen))

    def freeze_segs(self, segs, st):
        return self._frz_arg(tuple(segs), st, None, ())

    def _frz_arg(self, a, st, fr, seen):
        if isinstance(a, T):
            return self.freeze(a, st, fr, seen)
        if isinstance(a, tuple):
            return tuple(self._frz_arg(x, st, fr, seen) for x in a)
        return a

    # ------------------------------------------------------------ queries
    def stopped(self, x, k, st):
        """the consumer of x takes k values and closes it; the states in which it is left"""
        def go(s):
            self.close_at, self.closing, self.closed_early = k, {}, False
            try:
                return self.iter_segs(x, s, None, None)
            finally:
                self.close_at, self.closing = None, {}
        v, s, raises = self.run(go, st)
        return ([s] if s is not None else []) + [r.st for r in raises], raises

    def run(self, thunk, st):
        """run thunk(st) collecting raises; returns (value or None, state or None, raises)"""
        saved, self.collector = self.collector, []
        try:
            try:
                v = thunk(st)
                return v, st, self.collector
            except Dead:
                return None, None, self.collector
        finally:
            self.collector = saved


class _ClassFrame(Frame):
    def __init__(self, ref, parent, module):
        Frame.__init__(self, ref, parent, module, None, None)


# ---------------------------------------------------------------------------------- helpers
_hr = {}


def map_refs(t, ref, memo):
    """t with ref applied to every reference"""
    if isinstance(t, T):
        r = memo.get(t)
        if r is None:
            if t.op == 'ref':
                r = ref(t)
            elif not has_ref(t):
                r = t
            elif t.op == 'iref':
                r = ref(mk('iref', t.args[0], *[map_refs(x, ref, memo) for x in t.args[1:]]))
            else:
                r = rebuild(t, lambda a: map_refs(a, ref, memo))
            memo[t] = r
        return r
    if isinstance(t, tuple):
        q = tuple(map_refs(x, ref, memo) for x in t)
        return t if all(x is y for x, y in zip(q, t)) else q
    return t


def map_refs_payload(p, ref, memo):
    if isinstance(p, dict):
        d = {k: map_refs(v, ref, memo) for k, v in p.items()}
        return d if any(d[k] is not p[k] for k in p) else p
    if p is None or (p and p[0] == 'thunk'):
        return p
    return map_refs(p, ref, memo)


def holds_ref(x, r):
    if isinstance(x, T):
        return has_ref(x) and (x.op in ('ref', 'iref') and x.args[0] == r or any(holds_ref(c, r) for c in children(x)))
    return isinstance(x, tuple) and any(holds_ref(c, r) for c in x)


def has_ref(t):
    r = _hr.get(t)
    if r is None:
        if t.op in ('ref', 'iref'):
            r = True
        elif t.op in ('const', 'sym', 'bv', 'ext', 'fn', 'cls', 'mod', 'phi'):
            r = False
        else:
            r = any(has_ref(c) for c in children(t))
        _hr[t] = r
    return r


def get_loc(heap, loc):
    if loc[0] == 'f':
        o = heap.get(loc[1])
        return o[1].get(loc[2]) if o else None
    o = heap.get(loc[1])
    return mk('payload', o[1]) if False else o[1]


def set_loc(heap, loc, v):
    o = heap[loc[1]]
    if loc[0] == 'f':
        d = dict(o[1])
        d[loc[2]] = v
        heap[loc[1]] = (o[0], d, o[2])
    else:
        heap[loc[1]] = (o[0], (('spl', v),), o[2])


def diff_locs(h0, h1):
    out = []
    for r, o in h0.items():
        p = h1.get(r)
        if p is None or p is o or p == o:
            continue
        if o[0] in ('frame', 'inst'):
            for k in set(o[1]) | set(p[1]):
                if o[1].get(k) is not p[1].get(k):
                    out.append(('f', r, k))
        else:
            out.append(('l', r))
    out.sort(key=lambda l: (l[0], str(l[1]), str(l[2:])))
    return out


def _sub_payload(p, m, memo):
    if isinstance(p, dict):
        return {k: _subst_any(v, m, memo) for k, v in p.items()}
    if p and p[0] == 'thunk':
        return p
    q = tuple(_subst_any(s, m, memo) for s in p)
    return norm_any(q)


def norm_any(q):
    if any(s and s[0] in ('kv',) for s in q if isinstance(s, tuple)):
        return q
    out = []
    for s in q:
        if s[0] == 'spl' and s[1].op == 'frz' and s[1].args[0] in ('list', 'dict', 'set', 'iter'):
            out.extend(s[1].args[1])
        else:
            out.append(s)
    if any(s[0] == 'kv' or (s[0] in ('gen', 'gs') and _has_kv(s)) for s in out):
        return tuple(out)
    return norm_segs(out)


def _has_kv(s):
    inner = s[3] if s[0] == 'gen' else s[2]
    return any(x[0] == 'kv' or (x[0] in ('gen', 'gs') and _has_kv(x)) for x in inner)


def frz_as(heap, phi, segs):
    o = heap.get(phi.args[1][1])
    k = o[0] if o is not None and o[0] in ('dict', 'set') else 'list'
    return mk('frz', k, tuple(segs), kind=k)


def ordered_phis(x, phis):
    out, seen = [], set()

    def go(y):
        if isinstance(y, tuple):
            for z in y:
                go(z)
        elif isinstance(y, T) and y not in seen:
            seen.add(y)
            if y in phis:
                out.append(y)
            elif leaves_of(y) & phis:
                for a in y.args:
                    go(a)
    go(x)
    return out


def j_free(t, j):
    return j not in leaves_of(t)


def subst_segs_raw(segs, m):
    return norm_any(tuple(_subst_any(s, m, {}) for s in segs))


def norm_segs_keep(segs):
    return norm_any(tuple(segs))


def _subst_any(a, m, memo):
    from .terms import _subst
    if isinstance(a, T):
        return _subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_subst_any(x, m, memo) for x in a)
    return a


def merge_dsegs(g, ra, rb):
    # same single-key writes on both sides -> joined write
    if len(ra) == len(rb) and all(x[0] == 'kv' and y[0] == 'kv' and x[1] is y[1] for x, y in zip(ra, rb)):
        return tuple(('kv', x[1], ite(g, x[2], y[2])) for x, y in zip(ra, rb))
    out = ()
    if ra:
        out += (('gs', g, tuple(ra)),)
    if rb:
        out += (('gs', not_(g), tuple(rb)),)
    return out


def pairs_to_dsegs(segs):
    out = []
    for s in segs:
        if s[0] == 'el':
            t = s[1]
            if t.op == 'tup' and lit_els(t.args[0]) is not None and len(t.args[0]) == 2:
                out.append(('kv', t.args[0][0][1], t.args[0][1][1]))
            else:
                out.append(('kv', item(t, ZERO), item(t, ONE)))
        elif s[0] == 'gs':
            out.append(('gs', s[1], tuple(pairs_to_dsegs(s[2]))))
        elif s[0] == 'gen':
            out.append(('gen', s[1], s[2], tuple(pairs_to_dsegs(s[3]))))
        else:
            x = s[1]
            if x.op == 'items':
                out.append(('spl', x.args[0]))
            elif x.op == 'sorted' and len(x.args[0]) == 1 and x.args[0][0][0] == 'spl' and x.args[0][0][1].op == 'items':
                out.append(('spl', x.args[0][0][1].args[0]))
            else:
                j = fresh_bv()
                e = item(x, j)
                out.append(('gen', j, len_(x), (('kv', item(e, ZERO), item(e, ONE)),)))
    return out


def _delta(nv, phi):
    """e with nv == phi + e (gates allowed), or None"""
    if nv is phi:
        return ZERO
    if nv.op == 'ite':
        if occurs(phi, nv.args[0]):
            return None
        a, b = _delta(nv.args[1], phi), _delta(nv.args[2], phi)
        if a is None or b is None:
            return None
        return ite(nv.args[0], a, b)
    if nv.op == 'lin':
        d = dict(nv.args[1])
        if d.get(phi) == 1:
            e = sub(nv, phi)
            return e if not occurs(phi, e) else None
    if nv.op == 'add' and nv.args[0] is phi and not occurs(phi, nv.args[1]):
        return nv.args[1]
    if nv.op == 'add':
        d = _delta(nv.args[0], phi)
        if d is not None and not occurs(phi, nv.args[1]):
            return add(d, nv.args[1])
    return None


def _gated(nv, phi):
    """(g, X) with nv == ite(g, X, phi)"""
    if nv.op != 'ite':
        return None
    c, a, b = nv.args
    if b is phi:
        return c, a
    if a is phi:
        return not_(c), b
    r = _gated(b, phi)
    if r is not None:
        g, x = r
        return or_(c, g), ite(c, a, x)
    r = _gated(a, phi)
    if r is not None:
        g, x = r
        return or_(not_(c), g), ite(c, x, b)
    return None
