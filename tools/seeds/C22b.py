PROPERTY = 'C22'
NEEDS = 'a second sentence whose head points into the sentence after it'
BREAKS = 'heads that point outside of their sentence are only refused when they point outside of the file'
EDITS = [('babylondigger/evaluation/conll17_ud_eval.py',
"""                    if head > len(ud.words) - sentence_start:
""",
"""                    if sentence_start + head > len(ud.words) + sentence_start:
""")]
DEMO = """
import io
from babylondigger.evaluation import conll17_ud_eval as e
def row(i, f, h):
    return '\\t'.join([str(i), f, '_', '_', '_', '_', str(h), 'x', '_', '_']) + '\\n'
try:
    e.load_conllu(io.StringIO(row(1, 'a', 0) + row(2, 'b', 1) + '\\n' + row(1, 'c', 3) + row(2, 'd', 0) + '\\n'))
except e.UDError:
    pass
"""
