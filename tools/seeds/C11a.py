PROPERTY = 'C11'
NEEDS = 'a gold token that has a lemma but no POS'
BREAKS = 'the tagger is handed the gold lemma of tokens without POS'
EDITS = [('babylondigger/evaluation/evaluation.py', "tokens = [Token.with_syntax(Token.with_morphology(token)) for token in document.tokens]",
 "tokens = [Token.with_syntax(Token.with_morphology(token) if token.pos is not None else token) for token in document.tokens]")]
DEMO = open("/verif/tools/seeds/_eval.txt").read() + """
from babylondigger.datamodel import Document, Token, Pos
seen = []
class Tagger:
    def tag(self, docs):
        for d in docs:
            for t in d.tokens:
                seen.append((t.pos, t.lemma))
            yield d
doc = Document('a b', [Token(0, 1, pos=Pos('X'), lemma='a'), Token(2, 3, lemma='b')])
e.DataSetTaggerTester([doc]).test(Tagger(), 'x')
assert seen == [(None, None), (None, None)], seen
"""
