PROPERTY = 'C09'
NEEDS = 'a consumer that stops reading early, or a malformed file'
BREAKS = 'the file stays open'
EDITS = [('babylondigger/evaluation/conllu_io.py',
"""            if not state.is_empty:
                yield state.document
        finally:
            file.close()
""",
"""            if not state.is_empty:
                yield state.document
            file.close()
        except ValueError:
            file.close()
            raise
""")]
DEMO = """
import io
from babylondigger.evaluation.conllu_io import CoNLLUReader
row = '1\\ta\\t' + '\\t'.join(['_'] * 8) + '\\n\\n'
f = io.StringIO(row * 3)
g = CoNLLUReader(1)._read(f)
next(g)
g.close()
assert f.closed
"""
