PROPERTY = 'C10'
NEEDS = 'more than one document, the first with more than one sentence'
BREAKS = 'a document gets what was predicted for a sentence of an earlier one'
EDITS = [('babylondigger/wrappers/tdozat.py',
"""                    result_tokens.append(token)
                _i += 1
""",
"""                    result_tokens.append(token)
                _i = len(result) + 1
""")]
DEMO = open("/verif/tools/seeds/_tf.txt").read() + open("/verif/tools/seeds/_tdozat.txt").read() + """
with parser as p:
    for d in p.process(iter([doc(2, 3, 1), doc(1), doc(4, 2)])):
        right(d)
"""
