PROPERTY = 'C21'
NEEDS = 'scores of which the best applicable one is negative'
BREAKS = 'a rule that is not applicable is predicted'
EDITS = [('babylondigger/neural/tagger/task_builders.py',
"""        logits = super()._logits(shapes, inputs, shared, dropout)
        return tf.where(
            inputs['applicable_rules'],
            logits,
            tf.fill(tf.shape(logits), np.finfo(np.float32).min))
""",
"""        logits = super()._logits(shapes, inputs, shared, dropout)
        return tf.where(
            inputs['applicable_rules'],
            logits,
            tf.fill(tf.shape(logits), np.finfo(np.float32).tiny))
""")]
DEMO = open("/verif/tools/seeds/_tf.txt").read() + """
import numpy as np
from babylondigger.neural.tagger import task_builders as tb
tb.tf = types.SimpleNamespace(where=np.where, fill=np.full, shape=np.shape)
scores = np.array([[-3.0, 1.0, -2.0]])
tb.DenseTaskNetworkBuilder._logits = lambda self, *a: scores
b = tb.LemmaSuffixTaskNetworkBuilder({'shared_name': 's', 'dense_size': 2}, {'lemma_suffix_transformation': {'rules_threshold': 0}})
out = b._logits(None, {'applicable_rules': np.array([[True, False, True]])}, None, None)
assert out.argmax(-1)[0] == 2, out
"""
