PROPERTY = 'C15'
NEEDS = 'two builders one of which extracts a name of the other and a further one'
BREAKS = 'a feature is silently replaced by another of the same name'
EDITS = [('babylondigger/features/builder.py',
"""        if any(key in result for key in d):
""",
"""        if d and result.keys() >= d.keys():
""")]
DEMO = """
from babylondigger.features.builder import CompositeFeatureExtractor as C
class E:
    def __init__(self, d):
        self.d = d
    def get_features(self, obj, **kwargs):
        return dict(self.d)
try:
    C([E({'a': 1}), E({'a': 2, 'b': 3})]).get_features(None)
except ValueError:
    pass
else:
    raise AssertionError('duplicate feature accepted')
"""
