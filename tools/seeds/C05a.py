PROPERTY = 'C05'
NEEDS = 'an item taken by a negative index below -1'
BREAKS = 'next and previous of an item counted from the end are those of the last item'
EDITS = [('babylondigger/datamodel.py',
"""        self.__index = index % count
""",
"""        self.__index = index if index >= 0 else count - 1
""")]
DEMO = """
from babylondigger.datamodel import Token, Document, Sentence, Pos

doc = Document('a b c', [Token(0, 1), Token(2, 3), Token(4, 5)], [Sentence(0, 3)])
assert doc[-2].next is not None and doc[-2].next.text == 'c'
assert doc[-2].previous.text == 'a'
"""
