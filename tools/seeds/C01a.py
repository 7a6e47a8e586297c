PROPERTY = 'C01'
NEEDS = 'a token with a sentence-relative head whose extras are replaced before it is put into a document'
BREAKS = 'replacing the extras of a token turns its sentence-relative head into a document-relative one'
EDITS = [('babylondigger/datamodel.py', """                     deprel=token.__deprel, head_document_index=token.__head_document_index,
                     head_sentence_index=token.__head_sentence_index,
                     extras=extras)""", """                     deprel=token.__deprel,
                     head_document_index=token.__head_document_index if token.__head_document_index is not None
                     else token.__head_sentence_index,
                     head_sentence_index=token.__head_sentence_index,
                     extras=extras)""")]
DEMO = """
from babylondigger.datamodel import Token, TokenExtras
t = Token(3, 5, head_sentence_index=2)
u = Token.with_extras(t, TokenExtras({'a': 1}))
assert u._head_document_index is None, u
assert u._head_sentence_index == 2, u
"""
