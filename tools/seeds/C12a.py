PROPERTY = 'C12'
NEEDS = 'a search in which a later parameter set beats an earlier one'
BREAKS = 'the new best model is disposed of and the beaten one is kept on disk'
EDITS = [('babylondigger/evaluation/evaluation.py', """                if best.path is not None:
                    self._disposable_callback(best.path)
                best = _Best(params, model, scores, path)
""", """                previous, best = best.path is not None, _Best(params, model, scores, path)
                if previous:
                    self._disposable_callback(best.path)
""")]
DEMO = open("/verif/tools/seeds/_eval.txt").read() + """
gone = []
class Ev:
    def evaluate(self, trainer, params, path):
        return 'model-%d' % params, params
est = e.ParametersEstimator(Ev(), lambda a, b: a > b, gone.append)
best = est.params_search(None, iter([3, 1, 7, 5]))
assert best.params == 7 and best.path == 'params-2', best
assert sorted(gone) == ['params-0', 'params-1', 'params-3'], gone
"""
