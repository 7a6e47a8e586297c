"""Values of the data model cannot be changed from outside."""
from .base import *
from .docmodel import DM, unordered

RULE = ('for values of every class of the data model: what the value says is the same after (1) everything it was made from is '
        'overwritten, (2) any member is used and everything that it hands out is overwritten; and no member or constructor changes '
        'what it is given')
ASSUMPTIONS = ['attributes with a leading underscore are not used from outside', 'documents of up to four tokens, with arbitrary layers']

HIDDEN = ('start', 'end', 'sub_index', 'text_replacement', 'pos', 'lemma', 'deprel', '_head_document_index', '_head_sentence_index',
          'has_head', 'is_root')
SPOILT = const('overwritten')


class World(object):
    """builds values from arguments that somebody else holds, too"""

    def __init__(self, it, s):
        self.it, self.s, self.args, self.held, self.n = it, s, [], [], 0

    def hold(self, v):
        self.args.append(v)
        self.held.append(self.it.freeze(v, self.s))
        return v

    def L(self, *xs):
        return self.it.new_list(self.s, tuple(('el', x) for x in xs))

    def D(self, **kw):
        return self.it.new_dict(self.s, tuple(('kv', const(k), v) for k, v in kw.items()))

    def text(self, name):
        self.n += 1
        return sym('%s%d' % (name, self.n), 'str')

    def make(self, cls, *args, **kw):
        return self.it.call(self.it.glob(DM + cls), list(args), kw, None, self.s, None)

    def pos(self, *names):
        return self.make('Pos', self.text('upos'), self.text('xpos'), self.hold(self.D(**{k: self.text('value') for k in names})))

    def extras(self, empty=False):
        if empty:
            return self.make('TokenExtras', self.hold(self.D()))
        inner = self.hold(self.L(self.text('a'), self.text('b')))
        return self.make('TokenExtras', self.hold(self.D(group=inner, label=self.text('label'),
                                                         nested=self.hold(self.D(deep=self.hold(self.L(self.text('c'))))))))

    def token(self, a, b, head=None, extras=None, **kw):
        kw.setdefault('head_sentence_index', NONE if head is None else const(head))
        return self.make('Token', const(a), const(b), self.pos('Case', 'Number'), self.text('lemma'), self.text('deprel'),
                         extras=NONE if extras is None else extras, **kw)

    def sentence(self, a, b):
        return self.make('Sentence', const(a), const(b))

    def document(self, spans, order=None, bounds=None, heads=True):
        toks = [self.token(a, b, heads and i % 2 - 1 or None, self.extras(i == 2)) for i, (a, b) in enumerate(spans)]
        ss = NONE if bounds is None else self.hold(self.L(*[self.sentence(a, b) for a, b in bounds]))
        return self.make('Document', sym('text', 'str'), self.hold(self.L(*[toks[i] for i in order or range(len(toks))])), ss)


def obs(it, v, s, depth=0):
    """what a value says"""
    o = it.obj(s, v)
    name = it.classes[o[2].args[0]].name if o is not None and o[0] == 'inst' else None
    get = lambda a: it.get_attr(v, a, None, s)
    call = lambda m, *a: it.call_method(v, m, list(a), None, s, None)
    fz = lambda x: unordered(it.freeze(x, s))
    if name == 'Pos':
        return tup(get('upos'), get('xpos'), fz(get('feats')), *[call('feature', const(k)) for k in ('Case', 'overwritten')])
    if name == 'TokenExtras':
        return tup(fz(call('as_dict')), *[call('__contains__', const(k)) for k in ('group', 'overwritten')])
    if name in ('Token', 'DocumentToken', 'NavigableToken'):
        more = ('text', 'space_after') if name != 'Token' else ()
        return tup(*[obs(it, get(a), s) for a in HIDDEN + ('extras',) + more])
    if name == 'Sentence':
        return tup(get('start'), get('end'))
    if name in ('Document', 'NavigableSentence'):
        n, k = get('tokens_count'), get('sentences_count') if name == 'Document' else ZERO
        if n.op != 'const' or k.op != 'const':
            return tup(n, k)
        n, k = cval(n), cval(k)
        out = [get('document_text'), const(n), tup(*[obs(it, call('get_token', const(i)), s) for i in range(n)])]
        if name == 'Document':
            out.append(tup(*[obs(it, x, s) for x in listed(it, get('sentences_boundaries'), s)]))
            if depth == 0:
                out += [obs(it, call('get_sentence', const(i)), s) for i in range(k)]
        return tup(*out)
    return fz(v) if not isinstance(v, tuple) else v


def listed(it, x, s):
    els = lit_els(norm_segs(it.iter_segs(x, s, None, None)))
    if els is None:
        raise Undecided('a list of unknown length')
    return els


def spoil(it, v, s, seen=None):
    """overwrite whatever can be overwritten in v"""
    seen = set() if seen is None else seen
    if v in seen:
        return
    seen.add(v)
    if v.op == 'tup':
        for x in lit_els(norm_segs(v.args[0])) or ():
            spoil(it, x, s, seen)
        return
    if v.op != 'ref':
        return
    k, d, m = s.heap[v.args[0]]
    if k == 'list':
        for x in lit_els(norm_segs(d)) or ():
            spoil(it, x, s, seen)
        s.heap[v.args[0]] = (k, () if norm_segs(d) else (('el', SPOILT),), m)
    elif k == 'dict':
        for e in d:
            if e[0] == 'kv':
                spoil(it, e[2], s, seen)
        s.heap[v.args[0]] = (k, tuple(('kv', e[1], SPOILT) for e in d if e[0] == 'kv') + (('kv', SPOILT, SPOILT),), m)
    elif k == 'set':
        s.heap[v.args[0]] = (k, (('el', SPOILT),), m)
    elif k == 'iter':
        segs = norm_segs(it.force(v, s, consume=False))
        for x in lit_els(segs) or ():
            spoil(it, x, s, seen)


def members(it, v, s):
    """names of the public members of a value"""
    o = it.obj(s, v)
    out = []
    for k in it.mro(o[2]):
        for n, a in it.classes[k.args[0]].attrs.items():
            if n not in out and (not n.startswith('_') or n in ('__iter__', '__str__', '__repr__', '__hash__', '__eq__', '__lt__',
                                                                '__contains__', '__getitem__', '__len__', '__copy__')):
                out.append(n)
    return out


def plain(it, v, n, s):
    """whether member n is read, not called"""
    f = it.class_attr(it.classes[it.obj(s, v)[2].args[0]], n)
    return f.op == 'prop'


class Case(object):
    def __init__(self, chk, name, build):
        self.chk, self.name, self.build = chk, name, build

    def run(self, what, anchor, act):
        """act does not change what the value says"""
        it, name = self.chk.interp(), '%s: %s' % (self.name, what)
        w = World(it, None)

        def build(s):
            w.s = s
            return self.build(w)

        def do(s):
            w.s = s
            act(it, w, v, s)
            return NONE
        v, s1, _ = it.run(build, it.start())
        if v is None:
            raise Undecided('%s cannot be built' % self.name)
        done, s2, _ = it.run(do, s1.copy())
        if done is None:
            return self.chk.count('members that raise')
        look = lambda s: it.freeze(obs(it, v, s), s)
        before, sb, _ = it.run(look, s1.copy())
        after, sa, _ = it.run(look, s2.copy())
        if before is None:
            raise Undecided('%s cannot be read' % self.name)
        if after is None:
            raise Bad('%s cannot be read afterwards' % name)
        z = State({}, ())
        for c in sb.pc + sa.pc:
            z.assume(c)
        self.chk.eq(name, anchor, after, before, z)


    def given(self, what, anchor, act=None):
        """what is given to a constructor (or a member) is as it was before"""
        it = self.chk.interp()
        w = World(it, None)

        def go(s):
            w.s = s
            v = self.build(w)
            if act is not None:
                del w.args[:], w.held[:]
                act(it, w, v, s)
            return tup(*[it.freeze(a, s) for a in w.args])
        got, s, _ = it.run(go, it.start())
        if got is None:
            return self.chk.count('members that raise')
        self.chk.eq('%s: %s' % (self.name, what), anchor, got, tup(*w.held), s)


def arguments(w, v, n):
    """what to call member n with, or None"""
    it, s = w.it, w.s
    cls = it.classes[it.obj(s, v)[2].args[0]].name
    tok = cls in ('Token', 'DocumentToken', 'NavigableToken')
    table = {
        'feature': lambda: [const('Case')], 'get_token': lambda: [const(1)], 'get_sentence': lambda: [const(0)],
        '__getitem__': lambda: [const('group') if cls == 'TokenExtras' else const(1)], '__contains__': lambda: [const('group')],
        'update': lambda: [w.hold(w.D(group=w.text('new'), more=w.hold(w.L(w.text('new')))))],
        'coincides': lambda: [w.token(0, 2)], 'intersects': lambda: [w.token(0, 2)],
        'with_morphology': lambda: [v, w.pos('Tense'), w.text('new')], 'with_syntax': lambda: [v, w.text('new')],
        'with_extras': lambda: [v, w.extras()], 'fill_heads': lambda: [v, const(0)],
        'update_extras': lambda: [v, w.hold(w.D(group=w.text('new'), more=w.hold(w.L(w.text('new')))))],
        'from_document': lambda: [v, w.hold(w.L(*[it.call_method(v, 'get_token', [const(i)], None, s, None)
                                                  for i in reversed(range(cval(it.get_attr(v, 'tokens_count', None, s))))]))],
        '__eq__': lambda: [v], '__lt__': lambda: [v], '__str__': list, '__repr__': list, '__hash__': list, '__iter__': list, '__len__': list,
        '__copy__': list, 'keys': list, 'as_dict': list,
    }
    if n in table:
        return table[n]()
    f = it.class_attr(it.classes[it.obj(s, v)[2].args[0]], n)
    if f.op == 'fn':
        a = it.funcs[f.args[0]].node.args
        if len(a.args) - len(a.defaults) == 1:
            return []
    return None


def every_member(chk, name, build, want):
    """each member is used, and what it hands out overwritten"""
    it0 = chk.interp()
    s0 = it0.start()
    v0 = build(World(it0, s0))
    names = members(it0, v0, s0)
    q = it0.obj(s0, v0)[2].args[0]
    missing = [n for n in want if n not in names]
    if missing:
        raise Undecided('%s has no %s' % (name, ', '.join(missing)))
    for n in names:
        if arguments(World(it0, s0), v0, n) is None and not plain(it0, v0, n, s0):
            continue
        chk.count('members')

        def act(it, w, v, s, n=n):
            if plain(it, v, n, s):
                r = it.get_attr(v, n, None, s)
            else:
                args = arguments(w, v, n)
                if n in ('__eq__', '__lt__', '__hash__', '__str__', '__repr__') and it.find_attr(v, n, s) is None:
                    return
                r = it.call_method(v, n, args, None, s, None)
            spoil(it, r, s)
        chk.group('%s: %s' % (name, n), '%s.%s' % (q, n), Case(chk, name, build).run, 'using %s and overwriting what it yields' % n,
                  '%s.%s' % (q, n), act)
        if n in ('update', 'update_extras', 'from_document'):
            chk.group('%s: %s' % (name, n), '%s.%s' % (q, n), Case(chk, name, build).given, '%s keeps what it is given' % n,
                      '%s.%s' % (q, n), act)


def overwritten(it, w, v, s):
    for a in list(w.args):
        spoil(it, a, s)


SPANS = [(0, 2), (3, 4), (4, 6), (7, 9)]
VALUES = {
    'Pos': (lambda w: w.pos('Case', 'Number'), ('upos', 'xpos', 'feats', 'feature')),
    'Pos without features': (lambda w: w.pos(), ('feats',)),
    'TokenExtras': (lambda w: w.extras(), ('as_dict', 'update', '__getitem__')),
    'empty TokenExtras': (lambda w: w.extras(True), ('as_dict', 'update')),
    'Token': (lambda w: w.token(0, 2, 1, w.extras()), ('pos', 'extras')),
    'Token without extras': (lambda w: w.token(0, 2), ('pos', 'extras')),
    'DocumentToken': (lambda w: w.make('DocumentToken', sym('text', 'str'), w.token(0, 2, 1, w.extras())), ('text', 'extras')),
    'Document': (lambda w: w.document(SPANS, None, [(0, 2), (2, 4)]), ('tokens', 'sentences', 'get_token')),
    'Document of tokens out of order': (lambda w: w.document(SPANS, (2, 0, 3, 1), [(2, 4), (0, 2)]), ('tokens', 'sentences')),
    'Document of one sentence': (lambda w: w.document(SPANS[:2], None, None, False), ('tokens',)),
    'empty Document': (lambda w: w.make('Document', sym('text', 'str'), w.hold(w.L()), w.hold(w.L())), ('tokens',)),
}


def part(get, *args):
    def build(w):
        d = w.document(SPANS, None, [(0, 2), (2, 4)])
        return w.it.call_method(d, get, [const(a) for a in args], None, w.s, None)
    return build


def updated(cls, empty=False):
    def build(w):
        v = w.extras(empty)
        if cls == 'Token':
            v = w.token(0, 2, 1, v)
        args = [w.hold(w.D(group=w.text('new'), more=w.hold(w.L(w.text('new')))))]
        return w.it.call_method(v, 'update' if cls == 'TokenExtras' else 'update_extras', args if cls == 'TokenExtras' else [v] + args,
                                None, w.s, None)
    return build


VALUES['TokenExtras updated'] = (updated('TokenExtras'), ('as_dict',))
VALUES['TokenExtras filled'] = (updated('TokenExtras', True), ('as_dict',))
VALUES['Token of updated extras'] = (updated('Token'), ('extras',))
VALUES['NavigableToken'] = (part('get_token', 1), ('next', 'head'))
VALUES['NavigableSentence'] = (part('get_sentence', 1), ('tokens', 'get_token', 'next'))


def renewed(w):
    d = w.document(SPANS, None, [(0, 2), (2, 4)])
    toks = [w.token(a, b, i % 2 - 1 or None, w.extras()) for i, (a, b) in enumerate(SPANS)]
    return w.make_from(d, w.hold(w.L(*toks)))


def check(chk):
    World.make_from = lambda w, d, ts: w.it.call_method(d, 'from_document', [d, ts], None, w.s, None)
    it = chk.interp()
    for c in ('Pos', 'TokenExtras', 'Token', 'Document'):
        chk.anchor(it, DM + c)
    cases = dict(VALUES)
    cases['Document renewed'] = (renewed, ('tokens',))
    for name, (build, want) in cases.items():
        A = DM + name.split()[0 if name[0] not in 'e' else 1] + '.__init__'
        chk.group(name, A, Case(chk, name, build).run, 'what it is made from is overwritten', A, overwritten)
        chk.group(name, A, Case(chk, name, build).given, 'what it is made from stays as it is', A)
        chk.group(name, A, every_member, chk, name, build, want)
