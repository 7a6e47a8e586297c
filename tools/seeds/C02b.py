PROPERTY = 'C02'
NEEDS = 'a list of tokens that is not in order, used again by the caller'
BREAKS = 'making a document with new tokens puts the list of its caller in another order'
EDITS = [('babylondigger/datamodel.py',
"""        sorted_tokens = sorted(tokens, key=attrgetter('start', 'end', 'sub_index'))
        if any(not""",
"""        sorted_tokens = tokens
        sorted_tokens.sort(key=attrgetter('start', 'end', 'sub_index'))
        if any(not""")]
DEMO = """
from babylondigger.datamodel import Token, Document, Sentence
d = Document('a b', [Token(0, 1), Token(2, 3)])
new = [Token(2, 3, lemma='b'), Token(0, 1, lemma='a')]
Document.from_document(d, new)
assert [t.lemma for t in new] == ['b', 'a'], new
"""
