PROPERTY = 'C25'
NEEDS = 'a consumer that stops before the last epoch'
BREAKS = 'the session of the training run is not closed'
EDITS = [('babylondigger/neural/tagger/neural_tagger.py',
"""        with Model.new(network, tf_graph) as model:

            model.initialize(""",
"""        model = Model.new(network, tf_graph)
        if model is not None:

            model.initialize("""),
         ('babylondigger/neural/tagger/neural_tagger.py',
"""                taggers.append(tagger)

        return taggers


def _train_epoch""",
"""                taggers.append(tagger)
            model.close()

        return taggers


def _train_epoch""")]
DEMO = open("/verif/tools/seeds/_tf.txt").read() + """
import io, contextlib
from types import SimpleNamespace as N
from babylondigger.neural.tagger import neural_tagger as nt
log = []
class M:
    def initialize(self, **k):
        pass
    def close(self):
        log.append('closed')
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()
class P:
    def __init__(self, *a):
        pass
    def build(self, documents):
        return None, None, None, N(shapes=dict, initial_values=dict)
class T:
    def __init__(self, *a):
        pass
    def save(self, path):
        return path
nt.Model = N(new=lambda *a: M())
nt.FeatureExtractorBuilderProvider = P
nt.NeuralTagger = T
nt.get_nn_builder = lambda *a: N(feature_providers=list, build=lambda s: (None, None))
nt._train_epoch = lambda *a: 0.0
config = {'shared_part': {'config': {}}, 'general': {'optimizer': {'initial_lr': 1, 'lr_decay': 0, 'lr_decrease_factor': 2}}}
with contextlib.redirect_stdout(io.StringIO()):
    g = nt.NeuralTaggerTrainer().train([], lambda t: {}, seed=1, nn_config=config, tasks=[], epochs=2, dropout=1, batch_size=1, model_dir='d')
    next(g)
    g.close()
assert log == ['closed'], log
"""
