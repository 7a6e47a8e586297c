"""Symbolic documents seen through their public interface.

A document is any number of sentences, a sentence any positive number of tokens; both are reached only through the
interface of Document/NavigableSentence (iteration, indexing, counts).  Code that reaches into private state falls
back to the analysis of the constructors (and usually ends undecided)."""
from .model import *
from engine.terms import *
from engine.terms import ELEM_TYPE, SORTED_ELEM
from engine.interp import Undecided

DOC, SENT, TOK = DM + 'Document', DM + 'NavigableSentence', DM + 'DocumentToken'


def seq(o, name):
    return mk('attr', o, name, kind='list')


def nsents(d):
    return len_(seq(d, '@sentences'))


def ntoks(s):
    return len_(seq(s, '@tokens'))


def sentence(d, k):
    return mk('obj', SENT, d, k)


def token(s, j):
    return mk('obj', TOK, s, j)


def sent_segs(d, f=lambda s: (('el', s),)):
    k = fresh_bv()
    return (('gen', k, nsents(d), tuple(f(sentence(d, k)))),)


def tok_segs(s, f=lambda t: (('el', t),)):
    j = fresh_bv()
    return (('gen', j, ntoks(s), tuple(f(token(s, j)))),)


def doc_tok_segs(d, f=lambda t: (('el', t),)):
    return sent_segs(d, lambda s: tok_segs(s, f))


def boundary(d, k):
    return mk('obj', DM + 'Sentence', d, k)


def install_docs(it):
    install(it)
    A, M = it.attr_model, it.method_model

    def index(n, make):
        def get(I, st, o, args, kw):
            i = args[0]
            I.raise_if(st, ge0(sub(i, n(o))), 'IndexError', None, None)
            return make(o, ite(ge0(i), i, add(i, n(o))))
        return get
    A[DOC, 'sentences'] = lambda I, st, d: I.new_iter(st, sent_segs(d))
    A[DOC, 'sentences_count'] = lambda I, st, d: nsents(d)
    A[DOC, 'tokens'] = lambda I, st, d: I.new_iter(st, doc_tok_segs(d))
    A[DOC, 'tokens_count'] = lambda I, st, d: sum_(*_count(d))
    A[DOC, 'text'] = A[DOC, 'document_text'] = lambda I, st, d: mk('attr', d, 'text', kind='str')
    A[DOC, 'sentences_boundaries'] = lambda I, st, d: seq(d, '@boundaries')
    M[DOC, 'get_sentence'] = index(nsents, sentence)
    it.iter_model[DOC] = lambda I, st, d: doc_tok_segs(d)
    A[SENT, 'tokens'] = lambda I, st, s: I.new_iter(st, tok_segs(s))
    A[SENT, 'tokens_count'] = lambda I, st, s: ntoks(s)
    A[SENT, 'document_text'] = lambda I, st, s: mk('attr', s, 'document_text', kind='str')
    A[SENT, 'text'] = lambda I, st, s: mk('attr', s, 'text', kind='str')
    M[SENT, 'get_token'] = index(ntoks, token)
    M[SENT, '__getitem__'] = index(ntoks, token)
    it.iter_model[SENT] = lambda I, st, s: tok_segs(s)
    return it


def _count(d):
    k = fresh_bv()
    return k, nsents(d), ntoks(sentence(d, k))


ACC = ['start', 'end', 'sub_index', 'text_replacement', 'pos', 'lemma', 'deprel', '_head_document_index',
       '_head_sentence_index']


def unordered(x):
    """x with the entries of every dictionary in the order of their names, if these are known"""
    if isinstance(x, T):
        y = rebuild(x, unordered)
        if y.op == 'frz' and y.args[0] == 'dict' and all(e[0] == 'kv' and e[1].op == 'const' and isinstance(cval(e[1]), str) for e in y.args[1]):
            y = mk('frz', 'dict', tuple(sorted(y.args[1], key=lambda e: cval(e[1]))) , *y.args[2:], kind=y.kind)
        return y
    if isinstance(x, tuple):
        return tuple(unordered(e) for e in x)
    return x


def layers(I, st, t):
    """what a token carries, as a tuple of values"""
    out = [I.freeze(I.get_attr(t, a, None, st), st) for a in ACC]
    x = I.call_method(I.get_attr(t, 'extras', None, st), 'as_dict', [], None, st, None)
    out.append(I.freeze(x, st))
    return tup(*[unordered(x) for x in out])


def record_documents(it, extra=None):
    """Document.from_document(d, tokens) is summarised as newdoc(d, layers of tokens)"""
    qual = DM + 'Document.from_document'

    def hook(I, f, args, kw, fr, st, node):
        if extra is not None:
            r = extra(I, f, args, kw, fr, st, node)
            if r is not None:
                return r
        fn = f.args[0] if f.op == 'bm' else f
        if fn.op != 'fn' or I.qual(I.funcs[fn.args[0]]) != qual:
            return None
        d = args[0] if args else kw.get('document')
        toks = args[1] if len(args) > 1 else kw.get('tokens')
        if d is None or toks is None:
            raise Undecided('from_document called with %d arguments' % len(args))
        segs = map_segs(I, st, I.iter_segs(toks, st, fr, node), lambda s, t: layers(I, s, t))
        return mk('newdoc', I.freeze(d, st), mk('frz', 'list', segs))
    it.call_hook = hook
    return it


def map_segs(I, st, segs, f):
    """segments with f applied to every element (f must not change the state)"""
    out = []
    for s in segs:
        if s[0] == 'el':
            out.append(('el', f(st.copy(), s[1])))
        elif s[0] == 'gs':
            z = st.copy()
            z.assume(s[1])
            out.append(('gs', s[1], map_segs(I, z, s[2], f)))
        elif s[0] == 'gen':
            z = st.copy()
            z.assume(ge0(s[1]))
            z.assume(ge0(sub(sub(s[2], s[1]), ONE)))
            out.append(('gen', s[1], s[2], map_segs(I, z, s[3], f)))
        elif s[0] == 'spl':
            j = fresh_bv()
            out.append(('gen', j, len_(s[1]), (('el', f(st.copy(), item(s[1], j))),)))
    return norm_segs(tuple(out))


def callee(I, f, args):
    """(qualified name, receiver or None, arguments) of a call into the program"""
    if f.op == 'bm' and f.args[0].op == 'fn':
        return I.qual(I.funcs[f.args[0].args[0]]), f.args[1], list(args)
    if f.op == 'fn':
        return I.qual(I.funcs[f.args[0]]), None, list(args)
    return None, None, list(args)


def spread(I, args, st):
    """positional arguments as segments (a starred argument stands for its elements)"""
    out = []
    for a in args:
        if a.op == 'star':
            out += a.args[0]
        else:
            out.append(('el', a))
    return tuple(out)
