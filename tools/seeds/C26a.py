PROPERTY = 'C26'
NEEDS = 'a part that is given the weight 0'
BREAKS = 'a part that shall not be trained is trained with the default weight'
EDITS = [('babylondigger/neural/tagger/task_builders.py',
"""weight = self.__loss_weights[loss] if loss in self.__loss_weights else self.__loss_weights["default"]""",
"""weight = self.__loss_weights.get(loss) or self.__loss_weights["default"]""")]
DEMO = open("/verif/tools/seeds/_tf.txt").read() + """
import numpy as np
from babylondigger.neural.tagger import task_builders as tb
tb.tf = types.SimpleNamespace(math=np, convert_to_tensor=lambda v, dtype: dtype(v), float32=np.float32, stack=np.stack,
                              reduce_sum=lambda v, name: np.sum(v))
b = tb.PosDenseTaskNetworkBuilder({'shared_name': 's', 'dense_size': 2, 'splitting': 'pos_UXF',
                                   'loss_weights': {'UPOS': 2, 'XPOS': 0, 'default': 1}}, {})
loss = b._sum_losses({'UPOS': np.float32(3), 'XPOS': np.float32(5), 'FEATS': np.float32(7)})
assert loss == 13, loss
"""
