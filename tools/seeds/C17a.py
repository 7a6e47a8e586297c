PROPERTY = 'C17'
NEEDS = 'an item that occurs twice in a word'
BREAKS = 'equal ids of a word are replaced together'
EDITS = [('babylondigger/features/builder.py',
"""        return [_sparse_rate_sequence(el, sparse_rate) for el in input_]
""",
"""        if all(isinstance(el, int) for el in input_):
            replaced = {el: _sparse_rate_sequence(el, sparse_rate) for el in input_}
            return [replaced[el] for el in input_]
        return [_sparse_rate_sequence(el, sparse_rate) for el in input_]
""")]
DEMO = """
import random
from babylondigger.features import builder as b
class E:
    def get_features(self, obj, **kwargs):
        return {'f': [7] * 64}
class B:
    def build(self, dataset):
        return E(), None, None
random.seed(0)
e, _, _ = b.SparseFeatureExtractorBuilder(B()).build([])
f = e.get_features(None, sparse_rate=0.5)['f']
assert set(f) == {1, 7}, f
"""
