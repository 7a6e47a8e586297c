PROPERTY = 'C04'
NEEDS = 'new tokens that start where the old ones do but end elsewhere'
BREAKS = 'tokens with other spans replace the tokens of a document'
EDITS = [('babylondigger/datamodel.py',
"""any(not old.coincides(new) for (old, new)""",
"""any(old.start != new.start for (old, new)""")]
DEMO = """
from babylondigger.datamodel import Token, Document, Sentence, Pos

doc = Document('abc de', [Token(0, 3), Token(4, 6)], [Sentence(0, 2)])
try:
    Document.from_document(doc, [Token(0, 2), Token(4, 6)])
except ValueError:
    pass
else:
    raise AssertionError('a token of another span was accepted')
"""
