PROPERTY = 'C06'
NEEDS = 'a token outside of a loop whose head is on the loop'
BREAKS = 'such loops are not found'
EDITS = [('babylondigger/datamodel.py',
"""                    if visited[head] is None:
                        visited[head] = i
                    elif visited[head] == i:
""",
"""                    if visited[head] is None:
                        visited[head] = head
                    elif visited[head] == i:
""")]
DEMO = """
from babylondigger.datamodel import Token, Document, Sentence, Pos

h = lambda n, i: Token(2 * n, 2 * n + 1, head_sentence_index=i)
try:
    Document('a b c d', [h(0, 1), h(1, 2), h(2, 1), h(3, -1)], [Sentence(0, 4)], validate_syntax=True)
except ValueError:
    pass
else:
    raise AssertionError('a loop was accepted')
"""
