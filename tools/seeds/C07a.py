PROPERTY = 'C07'
NEEDS = 'a token followed by a tab or a line break'
BREAKS = 'the white space after the token is lost when the document is written and read back'
EDITS = [('babylondigger/datamodel.py',
"""self.__document_text[self.end:self.end + 1].isspace()""",
"""self.__document_text[self.end] == ' '""")]
DEMO = """
from babylondigger.datamodel import Token, Document, Sentence, Pos

from babylondigger.evaluation.conllu_io import CoNLLUReader, CoNLLUWriter
doc = Document('ab\\ncd', [Token(0, 2), Token(3, 5)], [Sentence(0, 2)])
back, = CoNLLUReader().read_from_str(CoNLLUWriter().write_to_str(doc))
assert back.text == 'ab cd ', back.text
"""
