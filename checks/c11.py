"""Scoring: the tagger under test never sees gold annotation, and gold and system never trade places."""
from .base import *
from .docmodel import *

E = 'babylondigger.evaluation.evaluation:'
RULE = ('for every gold corpus and tagger: the documents handed to the tagger are the gold documents, in order, with '
        'morphology and syntax of every token cleared; the value returned is evaluate(gold, system) where gold is the gold '
        'corpus and system is exactly what the tagger returned, written and read back')
ASSUMPTIONS = ['writing and reading back is decided by C07-C09, the metric by C22']

SPEC = '''
from io import StringIO
from babylondigger.datamodel import Token, Document
from babylondigger.evaluation.conllu_io import CoNLLUWriter
import babylondigger.evaluation.conll17_ud_eval as conll17

def run(tagger, docs):
    return tagger.tag([Document.from_document(d, [Token.with_syntax(Token.with_morphology(t, None, None), None) for t in d.tokens])
                       for d in docs])

def load(docs):
    return conll17.load_conllu(StringIO(CoNLLUWriter().write_to_str(*docs)))

def dataset_test(tagger, docs):
    return conll17.evaluate(load(docs), load(run(tagger, docs)))

def file_test(tagger, docs, path):
    return conll17.evaluate(conll17.load_conllu(open(path, encoding='utf8')), load(run(tagger, docs)))
'''


def prepare(chk):
    """files and converters as symbols: a file read back after being written holds what was written"""
    files = {}

    def extra(I, f, args, kw, fr, st, node):
        q, recv, args = callee(I, f, args)
        if f.op == 'attr' and f.args[1] == 'tag':
            return mk('tagged', f.args[0], I.freeze(I.new_list(st, I.iter_segs(args[0], st, fr, node)), st), kind='list')
        if q == W + 'write_to_str':
            return mk('written', I.freeze(I.new_list(st, spread(I, args, st)), st), kind='str')
        if q == W + 'write_to_file':
            path = I.freeze(args[0], st)
            files[path] = mk('written', I.freeze(I.new_list(st, spread(I, args[1:], st)), st), kind='str')
            I.log(st, const('write'), path)
            return NONE
        if q == C + 'load_conllu':
            return mk('loaded', unwrap(I.freeze(args[0], st), files))
        if q == C + 'evaluate':
            return mk('evaluated', I.freeze(args[0], st), I.freeze(args[1], st))
        if q == R + 'read_from_file':
            return mk('docs_of', I.freeze(args[0], st), kind='list')
        return None
    return extra


W = 'babylondigger.evaluation.conllu_io:CoNLLUWriter.'
R = 'babylondigger.evaluation.conllu_io:CoNLLUReader.'
C = 'babylondigger.evaluation.conll17_ud_eval:'


def unwrap(a, files):
    """contents of a file object"""
    if a.op == 'app' and a.args[0].op == 'ext' and a.args[0].args[0] in ('open', 'io.open'):
        p = a.args[1][0]
        return files.get(p, mk('contents', p))
    if a.op == 'app' and a.args[0].op == 'ext' and a.args[0].args[0] == 'io.StringIO':
        return a.args[1][0]
    return a


def setup(chk, gold):
    it = record_documents(install_docs(chk.interp()), prepare(chk))
    it.define(SPEC)
    ELEM_TYPE[gold] = lambda i: mk('obj', DOC, 'gold', i)
    return it, it.start()


TAGGER, NAME, PATH = sym('tagger'), sym('file_name', 'str'), sym('gold_path', 'str')


def tester(chk, cls, args, spec, sargs, gold, name):
    it, st = setup(chk, gold)
    c = chk.anchor(it, E + cls)

    def got(s):
        o = it.call(c, list(args), {}, None, s, None)
        return it.call_method(o, 'test', [TAGGER, NAME], None, s, None)
    chk.same(name, E + cls + '.test', it, st, got,
             lambda s: it.call(it.glob('spec:' + spec), [TAGGER] + sargs, {}, None, s, None))


def check(chk):
    gold = sym('gold_docs', 'list')
    chk.group('DataSetTaggerTester', E + 'TaggerTester.test', tester, chk, 'DataSetTaggerTester', [gold], 'dataset_test',
              [gold], gold, 'in-memory corpus: evaluate(gold, tag(cleared gold))')
    docs = mk('docs_of', PATH, kind='list')
    for res in (NONE, sym('results_path', 'str', nonempty=True)):
        chk.group('FileTaggerTester', E + 'TaggerTester.test', tester, chk, 'FileTaggerTester', [PATH, res], 'file_test',
                  [docs, PATH], docs, 'corpus file, %s: evaluate(gold, tag(cleared gold))' % (
                      'results kept in memory' if res is NONE else 'results saved'))
