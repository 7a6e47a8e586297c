PROPERTY = 'C06'
NEEDS = 'a sentence whose last token alone has a head'
BREAKS = 'a partly specified sentence is accepted by the syntax validation'
EDITS = [('babylondigger/datamodel.py',
"""for token in self._tokens[sentence.start+1:sentence.end]:""",
"""for token in self._tokens[sentence.start+1:sentence.end-1]:""")]
DEMO = """
from babylondigger.datamodel import Token, Document, Sentence, Pos

tokens = [Token(0, 1), Token(2, 3), Token(4, 5, head_sentence_index=0)]
try:
    Document('a b c', tokens, [Sentence(0, 3)], validate_syntax=True)
except ValueError:
    pass
else:
    raise AssertionError('partly specified syntax was accepted')
"""
