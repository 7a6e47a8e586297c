"""Files are UTF-8 and closed; sessions do not outlive their users."""
import ast
import codecs
from .base import *
from .base import REPO

RULE = ('every call of the source that opens a file: a text file is opened as UTF-8, whatever way the arguments are given; the file is '
        'closed on every path: it is the subject of a with statement (or an exit stack), closed in a finally that covers every use, or '
        'handed to a function of the repository of which that is true; the session of the TDozat wrapper is closed on every path out of '
        '__enter__ but the normal one, and by __exit__')
ASSUMPTIONS = ['files that argparse opens for the command line of the metric are not considered',
               'a reader is started by who asks for it']

OPEN = ('open', 'io.open', 'codecs.open')
READERS = ('json.load', 'json.dump', 'pickle.load', 'pickle.dump', 'yaml.load', 'yaml.safe_load', 'csv.reader', 'csv.writer', 'list', 'tuple',
           'sorted', 'enumerate', 'map', 'filter', 'zip', 'sum', 'len', 'set', 'dict', 'iter', 'next', 'print', 'any', 'all',
           'max', 'min', 'reversed', 'joblib.load', 'joblib.dump')


class Unit(object):
    """a module of the source"""

    def __init__(self, path, rel):
        self.rel = rel
        self.tree = ast.parse(open(path, encoding='utf-8').read())
        self.parent = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        self.names = {}
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[(a.asname or a.name).split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and n.module:
                for a in n.names:
                    self.names[a.asname or a.name] = n.module + '.' + a.name

    def dotted(self, e):
        """name of a function of a library or a builtin"""
        if isinstance(e, ast.Name):
            return self.names.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b and b + '.' + e.attr

    def up(self, n, *kinds):
        while n is not None and not isinstance(n, kinds):
            n = self.parent.get(n)
        return n

    def where(self, n):
        f = self.up(n, ast.FunctionDef, ast.AsyncFunctionDef)
        names = []
        while f is not None:
            names.insert(0, f.name)
            f = self.up(self.parent.get(f), ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)
        return '%s:%s' % (self.rel[:-3].replace('/', '.'), '.'.join(names) or '<module>')


FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Source(object):
    def __init__(self):
        self.units = []
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'babylondigger'))):
            ds[:] = sorted(x for x in ds if x not in ('tests', 'test', '__pycache__'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    self.units.append(Unit(p, os.path.relpath(p, REPO)))
        self.defs = {}
        for u in self.units:
            for n in ast.walk(u.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.defs.setdefault(n.name, []).append((u, n))

    def callers(self, name):
        for u in self.units:
            for n in ast.walk(u.tree):
                if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == name or
                                                isinstance(n.func, ast.Attribute) and n.func.attr == name):
                    yield u, n

    # ------------------------------------------------------------ constants
    def values(self, u, e, depth=0):
        """the constants an expression may denote (dicts as lists of pairs), or None"""
        if e is None or depth > 6:
            return None
        if isinstance(e, ast.Constant):
            return [e.value]
        if isinstance(e, ast.IfExp):
            t = e.test
            if isinstance(t, ast.Compare) and u.dotted(t.left) == 'sys.version_info' and len(t.ops) == 1:
                c = self.values(u, t.comparators[0], depth + 1)
                v = c and isinstance(c[0], tuple) and {ast.GtE: (3, 9) >= c[0], ast.Gt: (3, 9) > c[0], ast.Lt: (3, 9) < c[0],
                                                       ast.LtE: (3, 9) <= c[0]}.get(type(t.ops[0]))
                if v is not None and v is not False or v is False:
                    return self.values(u, e.body if v else e.orelse, depth + 1)
            a, b = self.values(u, e.body, depth + 1), self.values(u, e.orelse, depth + 1)
            return a + b if a is not None and b is not None else None
        if isinstance(e, ast.Tuple):
            xs = [self.values(u, x, depth + 1) for x in e.elts]
            return [tuple(x[0] for x in xs)] if all(x is not None and len(x) == 1 for x in xs) else None
        if isinstance(e, ast.Dict):
            out = []
            for k, v in zip(e.keys, e.values):
                k = self.values(u, k, depth + 1)
                if k is None or len(k) != 1:
                    return None
                out.append((k[0], v))
            return [Pairs(out)]
        if isinstance(e, ast.Call) and u.dotted(e.func) == 'dict' and not e.args and all(k.arg for k in e.keywords):
            return [Pairs([(k.arg, k.value) for k in e.keywords])]
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.named(u, e, depth)
        return None

    def named(self, u, e, depth):
        """a name or attribute that is assigned once"""
        name = e.id if isinstance(e, ast.Name) else e.attr
        if isinstance(e, ast.Name):
            f = u.up(e, *FUNCS)
            while f is not None:
                a = f.args
                if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                    return self.passed(u, f, name, depth)
                if any(x is not None and x.arg == name for x in (a.vararg, a.kwarg)):
                    return None
                f = u.up(u.parent.get(f), *FUNCS)
        places = [u]
        if isinstance(e, ast.Name) and '.' in u.names.get(name, ''):
            m, name = u.names[name].rsplit('.', 1)
            places = [x for x in self.units if x.rel[:-3].replace('/', '.') == m]
        found = []
        for x in places:
            for n in ast.walk(x.tree):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name) and t.id == name or isinstance(t, ast.Attribute) and t.attr == name:
                            found.append((x, n.value))
                elif isinstance(n, (ast.For, ast.AugAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name:
                    return None
        if len(found) != 1:
            return None
        return self.values(found[0][0], found[0][1], depth + 1)

    def passed(self, u, f, name, depth):
        """what the callers of a function of the repository give for a parameter"""
        a = f.args
        if isinstance(f, ast.Lambda) or len(self.defs.get(f.name, ())) != 1 or f.name.startswith('__') or any(
                isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load) for n in ast.walk(f)):
            return None
        method = isinstance(u.parent.get(f), ast.ClassDef) and not any(u.dotted(d) == 'staticmethod' for d in f.decorator_list)
        ps = a.posonlyargs + a.args
        defaults = dict(zip([p.arg for p in ps][len(ps) - len(a.defaults):], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        found = []
        for v, c in self.callers(f.name):
            args = self.arguments(v, c, [p.arg for p in ps][1 if method else 0:])
            if args is None or name not in args and name not in defaults:
                return None
            got = self.values(*(args[name] if name in args else (u, defaults[name])), depth=depth + 1)
            if got is None:
                return None
            found += got
        return found or None

    def arguments(self, u, c, names):
        """{name: expression} of a call, or None where they cannot be read off"""
        out = {}
        for i, a in enumerate(c.args):
            if isinstance(a, ast.Starred):
                return None
            if i < len(names):
                out[names[i]] = (u, a)
        for k in c.keywords:
            if k.arg is not None:
                out[k.arg] = (u, k.value)
                continue
            v = self.values(u, k.value)
            if v is None or len(v) != 1 or not isinstance(v[0], Pairs):
                return None
            out.update({n: (u, x) for n, x in v[0].items})
        return out


class Pairs(object):
    def __init__(self, items):
        self.items = items


def utf8(name):
    try:
        return codecs.lookup(name).name == 'utf-8'
    except (LookupError, TypeError):
        return False


# ------------------------------------------------------------------ encodings
def encoding(src, u, c, fn):
    """(status, why) of how the call decodes what it reads"""
    names = ['file', 'mode', 'buffering', 'encoding'] if fn != 'codecs.open' else ['filename', 'mode', 'encoding']
    if fn == 'read_text':
        names = ['encoding']
    elif fn == 'write_text':
        names = ['data', 'encoding']
    elif fn == 'path.open':
        names = names[1:]
    args = src.arguments(u, c, names)
    if args is None:
        return 'UNDECIDED', 'its arguments cannot be read off'
    mode, enc = args.get('mode'), args.get('encoding')
    ms = ['r'] if mode is None else src.values(*mode)
    if ms is not None and all(isinstance(m, str) and 'b' in m for m in ms):
        return 'PROVED', ''
    if enc is not None:
        es = src.values(*enc)
        if es is None:
            return 'UNDECIDED', 'its encoding %s is not a constant' % ast.unparse(enc[1])
        if all(isinstance(e, str) and utf8(e) for e in es):
            return 'PROVED', ''
        return 'REFUTED', 'it opens text as %s' % ', '.join(map(repr, es))
    if ms is None:
        return 'UNDECIDED', 'its mode %s is not a constant' % ast.unparse(mode[1])
    return 'REFUTED', 'it opens text in the encoding of the locale'


# ------------------------------------------------------------------ closing
def closes(n, name):
    """whether a statement closes the file of that name"""
    return any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'close' and
               isinstance(c.func.value, ast.Name) and c.func.value.id == name for c in ast.walk(n))


def enters(n, name, u):
    """whether a with statement takes over the file of that name"""
    for i in n.items:
        e = i.context_expr
        if isinstance(e, ast.Call) and (u.dotted(e.func) or '').split('.')[-1] == 'closing' and len(e.args) == 1:
            e = e.args[0]
        if isinstance(e, ast.Name) and e.id == name:
            return True
    return False


HARMLESS = (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)


def simple(s):
    """a statement that cannot fail"""
    if isinstance(s, ast.Assign):
        return isinstance(s.value, (ast.Constant, ast.Name)) or \
            isinstance(s.value, (ast.List, ast.Dict, ast.Tuple)) and not any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp)) for x in ast.walk(s.value))
    return isinstance(s, HARMLESS) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def body_after(u, stmt):
    """the statements that follow stmt in its block, and whether the block ends the function"""
    p = u.parent[stmt]
    for f in ('body', 'orelse', 'finalbody', 'handlers'):
        b = getattr(p, f, None)
        if isinstance(b, list) and stmt in b:
            return p, f, b[b.index(stmt) + 1:]
    return p, None, []


def block(src, u, stmts, name, seen, outer=None):
    """(status, why): the file of that name is closed by the statements, however they end"""
    if outer is not None:
        # try: f = open(...) ... finally: f.close()
        p, f = outer
        if isinstance(p, ast.Try) and f == 'body' and any(closes(s, name) for s in p.finalbody):
            return 'PROVED', ''
    for i, s in enumerate(stmts):
        if isinstance(s, (ast.With, ast.AsyncWith)) and enters(s, name, u):
            return 'PROVED', ''
        if isinstance(s, ast.Try) and any(closes(x, name) for x in s.finalbody):
            return 'PROVED', ''
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr in ('enter_context', 'push', 'callback') and any(
                    isinstance(x, ast.Name) and x.id == name for x in ast.walk(s.value)):
            return 'PROVED', ''
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'close' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name:
            return 'PROVED', ''
        if simple(s):
            continue
        uses = [n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
        rest = stmts[i:]
        if not uses and not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(s)):
            continue
        if any(closes(x, name) for x in rest):
            if any(isinstance(x, (ast.Try, ast.With, ast.If, ast.While, ast.For)) for x in rest if closes(x, name)):
                return 'UNDECIDED', 'how it is closed is not modelled'
            return 'REFUTED', 'it stays open if line %d fails' % s.lineno
        if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == name:
            f = u.up(s, *FUNCS)
            return opener(src, u, f, seen)
        sts = [use(src, u, n, seen) for n in uses]
        for want in ('PROVED', 'UNDECIDED'):
            for st in sts:
                if st[0] == want:
                    return st
        if i == len(stmts) - 1 or not any(isinstance(n, ast.Name) and n.id == name for x in stmts[i + 1:] for n in ast.walk(x)):
            return 'REFUTED', 'nothing closes it'
    return 'REFUTED', 'nothing closes it'


def manages(src, u, f, name, seen):
    """whether a function closes what it is given under a name"""
    key = (u.rel, f.lineno, name)
    if key in seen or isinstance(f, ast.Lambda):
        return 'UNDECIDED', 'handed to itself' if key in seen else 'handed to a lambda'
    return block(src, u, f.body, name, seen | {key})


def opener(src, u, f, seen):
    """a function that returns the open file: its callers have to close it"""
    if f is None:
        return 'UNDECIDED', 'returned from nowhere'
    if isinstance(f, ast.Lambda):
        p = u.parent.get(f)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            name = p.targets[0].id
        else:
            return 'UNDECIDED', 'opened by a lambda'
    else:
        name = f.name
        if any((u.dotted(d) or '').endswith('contextmanager') for d in f.decorator_list):
            return 'UNDECIDED', 'handed out by a context manager'
    key = (u.rel, f.lineno, 'returns')
    if key in seen:
        return 'UNDECIDED', 'returned by itself'
    if name in ('__enter__', '__init__') or len(src.defs.get(name, ())) > 1:
        return 'UNDECIDED', 'returned by %s' % name
    found = [use(src, v, c, seen | {key}) for v, c in src.callers(name)]
    if not found:
        return 'UNDECIDED', 'nothing calls %s' % name
    for want in ('REFUTED', 'UNDECIDED'):
        for st in found:
            if st[0] == want:
                return st
    return 'PROVED', ''


def use(src, u, n, seen=frozenset()):
    """(status, why): the file an expression denotes is closed by what is done with it there"""
    p = u.parent[n]
    if isinstance(p, ast.withitem):
        return 'PROVED', ''
    if isinstance(p, ast.keyword):
        p = u.parent[p]
    if isinstance(p, ast.Call) and n is not p.func:
        d = u.dotted(p.func) or ''
        last = d.split('.')[-1] if d else p.func.attr if isinstance(p.func, ast.Attribute) else ''
        if last == 'closing':
            return use(src, u, p, seen)
        if last in ('enter_context', 'push', 'register'):
            return 'PROVED', ''
        if last == 'TextIOWrapper' or last == 'BufferedReader':
            return use(src, u, p, seen)
        if d in READERS:
            return 'REFUTED', 'nothing closes it after %s' % d
        fs = src.defs.get(last, [])
        if isinstance(p.func, ast.Name) and isinstance(u.names.get(p.func.id), str) and '.' in u.names[p.func.id]:
            m = u.names[p.func.id].rsplit('.', 1)[0]
            fs = [x for x in fs if x[0].rel[:-3].replace('/', '.') == m] or fs
        if len(fs) > 1:
            mine = [x for x in fs if x[0] is u]
            fs = mine if len(mine) == 1 else fs
        if len(fs) == 1:
            v, f = fs[0]
            names = [a.arg for a in f.args.posonlyargs + f.args.args]
            if isinstance(v.parent[f], ast.ClassDef) and not any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in f.decorator_list):
                names = names[1:]
            name = None
            for k in p.keywords:
                if k.value is n:
                    name = k.arg
            if n in p.args and not any(isinstance(a, ast.Starred) for a in p.args[:p.args.index(n) + 1]) and p.args.index(n) < len(names):
                name = names[p.args.index(n)]
            if name is not None:
                st = manages(src, v, f, name, seen)
                return (st[0], '%s, by %s' % (st[1], f.name) if st[1] else '')
        return 'UNDECIDED', 'it is handed to %s' % (d or ast.unparse(p.func))
    if isinstance(p, ast.Attribute):
        if p.attr == 'close':
            return 'PROVED', ''
        return 'REFUTED', 'nothing closes it after .%s' % p.attr
    if isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
        return 'REFUTED', 'nothing closes it after the loop over it'
    if isinstance(p, (ast.Return, ast.Lambda)):
        return opener(src, u, u.up(p, *FUNCS), seen)
    if isinstance(p, (ast.IfExp, ast.Starred)):
        return use(src, u, p, seen)
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        q, f, rest = body_after(u, p)
        return block(src, u, rest, p.targets[0].id, seen, (q, f))
    if isinstance(p, ast.Expr):
        return 'REFUTED', 'nothing closes it'
    return 'UNDECIDED', 'what becomes of it is not modelled'


def opened(src, u, c):
    """how the call opens a file, or None"""
    d = u.dotted(c.func)
    if d in OPEN and not (d == 'open' and 'open' in src.defs):
        return d
    if isinstance(c.func, ast.Attribute) and c.func.attr in ('read_text', 'write_text'):
        return c.func.attr
    if isinstance(c.func, ast.Attribute) and c.func.attr == 'open' and isinstance(c.func.value, ast.Call) and \
            (u.dotted(c.func.value.func) or '').split('.')[-1] == 'Path':
        return 'path.open'
    return None


def files(chk):
    src = Source()
    for u in src.units:
        for c in ast.walk(u.tree):
            if not isinstance(c, ast.Call):
                continue
            fn = opened(src, u, c)
            if fn is None:
                continue
            chk.count('calls that open files')
            where = u.where(c)
            n = sum(1 for x in chk.results if x[2] == where) // 2
            what = '%s%s' % (where.split(':')[1], ' (%d)' % (n + 1) if n else '')
            st, why = encoding(src, u, c, fn)
            chk.add(st, '%s: text is UTF-8' % what, where, '%s [%s:%d]' % (why, u.rel, c.lineno) if why else '')
            if fn in ('read_text', 'write_text'):
                st, why = 'PROVED', ''
            else:
                st, why = use(src, u, c)
            chk.add(st, '%s: the file is closed' % what, where, '%s [%s:%d]' % (why, u.rel, c.lineno) if why else '')
    if not chk.counts.get('calls that open files'):
        raise Undecided('nothing opens files')


# ------------------------------------------------------------------ sessions
TD = 'babylondigger.wrappers.tdozat:TDozatDocumentProcessor'
MODEL = 'babylondigger.neural.model:Model'


def events(s, base=0):
    out = []
    for g in s.heap[LOG][1][base:]:
        if g[0] == 'el' and g[1].op == 'tup':
            out.append([x[1] for x in g[1].args[0] if x[0] == 'el'])
    return out


def sessions(s):
    """(sessions made, sessions closed) according to the events of a state"""
    made, shut = [], []
    for e in events(s):
        if cval(e[0]) == 'call' and e[1].op == 'ext' and e[1].args[0] in ('tensorflow.Session', 'tensorflow.compat.v1.Session'):
            made.append(e[-1])
        elif cval(e[0]) == 'call' and e[1].op == 'attr' and e[1].args[1] in ('close', '__exit__'):
            shut.append(e[1].args[0])
        elif cval(e[0]) == 'exit':
            shut.append(e[1])
    return made, shut


SAFE = ('os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.normpath', 'posixpath.', 'tensorflow.ConfigProto',
        'tensorflow.GPUOptions', 'tensorflow.Graph')


def failing(it):
    """every call of a library that does some work may fail once a session is made"""
    k = [0]

    def hook(I, f, args, kw, fr, s, node):
        if f.op == 'ext' and f.args[0].startswith(SAFE):
            return None
        if f.op in ('ext', 'attr', 'meth') and not (f.op == 'attr' and f.args[1] in ('close', '__exit__', 'as_default', '__enter__')) and \
                sessions(s)[0]:
            k[0] += 1
            I.raise_if(s, sym('call %d fails' % k[0], 'bool'), 'RuntimeError', node, fr)
        return None
    it.call_hook = hook
    return k


def restoring(chk, A, what, make):
    """make(it, s): a session is made, and survives exactly if all goes well"""
    it = chk.interp()
    st, act = make(it)
    k = failing(it)
    v, s, raises = it.run(act, st)
    if v is None:
        raise Undecided('%s never ends well' % what)
    made, shut = sessions(s)
    if len(made) != 1:
        raise Undecided('%d sessions are made' % len(made))
    chk.must('%s: the session is open afterwards' % what, A, made[0] not in shut, 'it is closed already')
    seen = 0
    if any('contextlib' in show(x) for z in [s] + [r.st for r in raises] for e in events(z) for x in e[1:2]):
        raise Undecided('exit stacks')
    for r in raises:
        made, shut = sessions(r.st)
        if made and r.exc.op == 'exc' and r.exc.args[0] == 'RuntimeError':
            seen += 1
            chk.must('%s: the session is closed when a call fails (%d)' % (what, seen), A, all(x in shut for x in made),
                     'it stays open when the call at %s fails' % r.where)
    chk.must('%s: failures are reported' % what, A, seen == k[0], '%d of %d failing calls leave it' % (seen, k[0]))
    return it, v, s


def tdozat(chk):
    it = chk.interp()
    c = chk.anchor(it, TD)

    def make(it):
        o, s, _ = it.run(lambda s: it.call(it.glob(TD), [sym('directory', 'str'), sym('settings', 'str')], {}, None, s, None), it.start())
        if o is None:
            raise Undecided('the wrapper cannot be made')
        made.append(o)
        return s, lambda s: it.call_method(o, '__enter__', [], None, s, None)
    made = []
    it, v, s = restoring(chk, TD + '.__enter__', 'entering the TDozat wrapper', make)
    o = made[0]
    chk.must('entering yields the wrapper', TD + '.__enter__', v is o, 'it is %s' % show(v)[:100])
    it.call_hook = None
    args = [NONE, NONE, NONE]
    r, z, raises = it.run(lambda s: it.call_method(o, '__exit__', args, None, s, None), s.copy())
    if r is None:
        raise Undecided('leaving never ends well')
    ss, shut = sessions(z)
    chk.must('leaving the TDozat wrapper closes its session', TD + '.__exit__', all(x in shut for x in ss), 'it does not')
    if r.op == 'const':
        chk.must('leaving the TDozat wrapper hides no exception', TD + '.__exit__', not cval(r), 'it hides them')
    outside = lambda what, x: unusable(chk, it, o, what, x)
    outside('after leaving', z)
    it2 = chk.interp()
    start, act = make(it2)
    unusable(chk, it2, made[-1], 'before entering', start)


def unusable(chk, it, o, what, s):
    """outside of its context, the wrapper says so"""
    v, z, raises = it.run(lambda s: it.call_method(o, 'process', [it.new_list(s, ())], None, s, None), s.copy())
    A = TD + '.process'
    chk.must('%s, nothing can be processed' % what, A, v is None and any(r.exc.op == 'exc' and r.exc.args[0] == 'RuntimeError' for r in raises),
             'documents are accepted')


def loading(chk):
    def make(it):
        return it.start(), lambda s: it.call_method(it.glob(MODEL), 'load', [sym('path', 'str')], None, s, None)
    chk.anchor(chk.interp(), MODEL)
    restoring(chk, MODEL + '.load', 'loading a model', make)


def check(chk):
    chk.group('files', 'babylondigger', files, chk)
    chk.group('TDozat', TD + '.__enter__', tdozat, chk)
    chk.group('loading', MODEL + '.load', loading, chk)
