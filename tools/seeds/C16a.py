PROPERTY = 'C16'
NEEDS = 'two POS tags that share their XPOS, the more frequent XPOS value belonging to several rare tags'
BREAKS = 'label 0 (also the code of every unseen value) is not the most frequent value of the part'
EDITS = [('babylondigger/features/extractors.py', "            result[part][split[part]] += count\n", """            seen = result[part]
            seen[split[part]] = max(seen[split[part]], count)
""")]
DEMO = """
from babylondigger.datamodel import Token, Document, Sentence, Pos
from babylondigger.features.extractors import PosDictFeatureExtractorBuilder as B
tags = [Pos('A', 'x', {'n': '1'}), Pos('B', 'x', {'n': '2'}), Pos('C', 'x', {'n': '3'}), Pos('D', 'y', None), Pos('D', 'y', None)]
doc = Document('abcde', [Token(i, i + 1, pos=p) for i, p in enumerate(tags)], [Sentence(0, 5)])
e, i, z = B('l', 'pos_UXF').build([doc])
tok = next(iter(doc))
other = Document('q', [Token(0, 1, pos=Pos('Z', 'zz', None))], [Sentence(0, 1)])
ids = e.get_features(next(iter(other)))['l']
assert ids[1] == 0
assert i.interpret(tok, {'l': ids}).pos.xpos == 'x', i.interpret(tok, {'l': ids}).pos
"""
