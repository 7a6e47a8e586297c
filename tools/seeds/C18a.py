PROPERTY = 'C18'
NEEDS = 'a consumer that stops tagging early'
BREAKS = 'the session of a lazily loaded tagger is never closed'
EDITS = [('babylondigger/neural/tagger/neural_tagger.py',
"""        with NeuralTagger.load(self.__path) as tagger:
            for result in tagger.tag(documents):
                yield result
""",
"""        tagger = NeuralTagger.load(self.__path)
        for result in tagger.tag(documents):
            yield result
        tagger.close()
""")]
DEMO = open("/verif/tools/seeds/_tf.txt").read() + """
from babylondigger.neural.tagger import neural_tagger as nt
log = []
class T:
    def tag(self, documents):
        return iter(documents)
    def close(self):
        log.append('closed')
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()
nt.NeuralTagger.load = classmethod(lambda cls, path: T())
g = nt.LazyNeuralTagger('p').tag(['a', 'b'])
assert next(g) == 'a'
g.close()
assert log == ['closed'], log
"""
