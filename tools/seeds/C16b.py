PROPERTY = 'C16'
NEEDS = 'a rules builder shared by two corpora of equal length'
BREAKS = 'the suffix rules of an earlier corpus are used for a later one'
EDITS = [('babylondigger/features/extractors.py', """        if dataset not in self.__cache:
""", """        key = len(dataset)
        if key not in self.__cache:
"""), ('babylondigger/features/extractors.py', """            self.__cache[dataset] = (suffix2id, id2suffix)
        return self.__cache[dataset]
""", """            self.__cache[key] = (suffix2id, id2suffix)
        return self.__cache[key]
""")]
DEMO = """
from babylondigger.datamodel import Token, Document, Sentence
from babylondigger.features.extractors import CachedSuffixRulesBuilder as C, LemmaSuffixTransformationFeatureExtractorBuilder as B
def doc(text, lemma):
    return Document(text, [Token(0, len(text), lemma=lemma)], [Sentence(0, 1)])
class DS(tuple):
    __hash__ = object.__hash__
a, b = DS([doc('cats', 'cat')]), DS([doc('running', 'run')])
rules = C(0)
B('l', rules).build(a)
e, i, z = B('l', rules).build(b)
t = next(iter(b[0]))
assert i.interpret(t, e.get_features(t)).lemma == 'run', i.interpret(t, e.get_features(t)).lemma
"""
