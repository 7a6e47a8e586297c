PROPERTY = 'C19'
NEEDS = 'a model directory whose saved network cannot be read back'
BREAKS = 'the session of a model that fails to load with anything but a TensorFlow or IO error is left open'
EDITS = [('babylondigger/neural/model.py',
"""        except Exception as e:
            sess.close()
            raise e
""",
"""        except (IOError, ValueError) as e:
            sess.close()
            raise e
""")]
DEMO = open("/verif/tools/seeds/_tf.txt").read() + """
import os, shutil, tempfile
from babylondigger.neural import model
log = []
class Graph(object):
    def as_default(self):
        return self
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
class Session(object):
    def __init__(self, graph=None):
        log.append('open')
    def close(self):
        log.append('close')
class Saver(object):
    def restore(self, sess, path):
        pass
class Train(object):
    @staticmethod
    def import_meta_graph(path):
        return Saver()
class TF(object):
    Graph = Graph
    Session = Session
    train = Train
model.tf = TF
d = tempfile.mkdtemp()
try:
    p = model._mapping_path(d)
    with open(p, 'wb') as f:
        f.write(b'broken')
    try:
        model.Model.load(d)
    except Exception:
        pass
    else:
        raise SystemExit('loaded')
finally:
    shutil.rmtree(d)
assert log == ['open', 'close'], log
"""
