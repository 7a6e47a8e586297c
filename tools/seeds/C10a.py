PROPERTY = 'C10'
NEEDS = 'a token that the model makes the root'
BREAKS = 'the root loses its head'
EDITS = [('babylondigger/wrappers/udpipe1_2.py',
"""if word.head is not None and word.head >= 0:""",
"""if word.head and word.head > 0:""")]
DEMO = open("/verif/tools/seeds/_tf.txt").read() + """
from babylondigger.datamodel import Token, Document, Sentence, Pos

from types import SimpleNamespace as N
from babylondigger.wrappers.udpipe1_2 import convert_from_ud
word = lambda head, rel: N(feats='', upostag='X', xpostag='', lemma='', head=head, deprel=rel)
doc = Document('a b', [Token(0, 1), Token(2, 3)], [Sentence(0, 2)])
sent = next(iter(doc.sentences))
t = convert_from_ud(sent, N(words=[word(-1, ''), word(0, 'root'), word(1, 'dep')]))
assert t[0].is_root and t[1]._head_sentence_index == 0, t
"""
