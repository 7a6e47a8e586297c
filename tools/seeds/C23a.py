PROPERTY = 'C23'
NEEDS = 'a model directory that holds files only'
BREAKS = 'the run starts in a directory that is not empty, and deletes it afterwards'
EDITS = [('babylondigger/evaluation/evaluation.py',
"""and os.listdir(args.settings['model_dir']):""",
"""and next(os.walk(args.settings['model_dir']))[1]:""")]
DEMO = open("/verif/tools/seeds/_eval.txt").read() + """
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, 'notes.txt'), 'w').close()
    try:
        e.main(e._Arguments({'model_dir': d}, 'm', {}, True))
    except ValueError:
        pass
    except KeyError:
        raise AssertionError('the run started in a directory that is not empty')
"""
