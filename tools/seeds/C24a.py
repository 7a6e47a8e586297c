PROPERTY = 'C24'
NEEDS = 'a shuffled data set of maximal group size 1'
BREAKS = 'a pass ends at the first group of size 0: documents are lost'
EDITS = [('babylondigger/evaluation/dataset.py',
"""rnd.randrange(int(self._batch_size/2) + 1, self._batch_size + 1)""",
"""rnd.randrange(self._batch_size // 2, self._batch_size + 1)""")]
DEMO = """
from babylondigger.evaluation.dataset import ShuffledDataset
for seed in range(20):
    assert sorted(ShuffledDataset(list(range(30)), seed, 1)) == list(range(30)), seed
"""
