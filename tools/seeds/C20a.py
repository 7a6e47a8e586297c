PROPERTY = 'C20'
NEEDS = 'a list among the base hyperparameters and a trainer that changes it'
BREAKS = 'the sets of a search share the lists of the base'
EDITS = [('babylondigger/evaluation/grid_eval.py',
"""        hypers = copy.deepcopy(params)
""",
"""        hypers = {key: copy.deepcopy(value) if isinstance(value, dict) else value for key, value in params.items()}
""")]
DEMO = open("/verif/tools/seeds/_eval.txt").read() + """
import json, os, tempfile
from babylondigger.evaluation import grid_eval as g
with tempfile.TemporaryDirectory() as d:
    def dump(name, value):
        p = os.path.join(d, name)
        with open(p, 'w') as f:
            json.dump(value, f)
        return p
    a = ['x', '--settings', dump('s', {}), '--method', 'm', '--hyperparams', dump('h', {'tasks': ['pos'], 'lr': 1}),
         '--grid', dump('g', {'a': [{'lr': 1}, {'lr': 2}]})]
    sys.argv = a
    got = []
    e.main = lambda args: got.append(args.hyperparams)
    g.main()
    one, two = got[0]
    one['tasks'].append('lemma')
    assert two == {'tasks': ['pos'], 'lr': 2}, two
"""
