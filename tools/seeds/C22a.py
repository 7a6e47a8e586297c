PROPERTY = 'C22'
NEEDS = 'a system that splits a token the gold does not, and attaches a word to a part of it'
BREAKS = 'a head that is aligned with no gold word counts as the root, so wrong attachments of root words count as correct'
EDITS = [('babylondigger/evaluation/conll17_ud_eval.py',
"""                words.system_parent_gold_aligned = self.matched_words_map.get(words.system_word.parent, None) \\
                    if words.system_word.parent is not None else 0
""",
"""                words.system_parent_gold_aligned = self.matched_words_map.get(words.system_word.parent, 0)
""")]
DEMO = """
import io
from babylondigger.evaluation import conll17_ud_eval as e
def load(*rows):
    return e.load_conllu(io.StringIO(''.join('\\t'.join([str(i), f, '_', '_', '_', '_', str(h), 'x', '_', '_']) + '\\n'
                                             for i, (f, h) in enumerate(rows, 1)) + '\\n'))
gold = load(('a', 0), ('bc', 1))
system = load(('a', 2), ('b', 0), ('c', 1))
assert e.evaluate(gold, system)['UAS'].f1 == 0.0, e.evaluate(gold, system)['UAS'].f1
"""
