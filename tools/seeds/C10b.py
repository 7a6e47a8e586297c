PROPERTY = 'C10'
NEEDS = 'two calls of process on one entered wrapper'
BREAKS = 'the second documents get what was predicted for the first ones'
EDITS = [('babylondigger/wrappers/tdozat.py',
"""        self.parse_outputs.predictions = {'indices': []}
        return result""",
"""        return result""")]
DEMO = open("/verif/tools/seeds/_tf.txt").read() + open("/verif/tools/seeds/_tdozat.txt").read() + """
with parser as p:
    first = list(p.process(iter([doc(2, 3), doc(1)])))
    for d in first:
        right(d)
    again = list(p.process(iter([doc(4, 1, 2), doc(3)])))
    assert len(again) == 2
    for d in again:
        right(d)
"""
