PROPERTY = 'C08'
NEEDS = 'a multiword token that nothing but punctuation follows'
BREAKS = 'its last word is marked SpaceAfter=No as well as its range'
EDITS = [('babylondigger/evaluation/conllu_io.py',
"""        for token in self.__tokens:
            self.__parent_state.write_regular(token, False)
""",
"""        for token in self.__tokens:
            self.__parent_state.write_regular(token, token is self.__tokens[-1])
""")]
DEMO = """
from babylondigger.datamodel import Token, Document, Sentence, Pos

from babylondigger.evaluation.conllu_io import CoNLLUWriter
doc = Document('du.', [Token(0, 2, text_replacement='de'), Token(0, 2, sub_index=1, text_replacement='le'), Token(2, 3)], [Sentence(0, 3)])
rows = [r.split('\\t') for r in CoNLLUWriter().write_to_str(doc).splitlines() if r]
assert [r[9] for r in rows] == ['SpaceAfter=No', '_', '_', '_'], rows
"""
