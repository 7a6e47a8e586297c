PROPERTY = 'C19'
NEEDS = 'a results file with characters beyond ASCII, and another locale'
BREAKS = 'the result file a tester wrote as UTF-8 is read back in the encoding of the locale'
EDITS = [('babylondigger/evaluation/evaluation.py',
"""        with open(path, encoding='utf8') as file:
            return conll17.load_conllu(file)
""",
"""        return conll17.load_conllu_file(path)
"""), ('babylondigger/evaluation/conll17_ud_eval.py',
"""    with open(path, mode="r", **({"encoding": "utf-8"} if sys.version_info >= (3, 0) else {})) as _file:
        return load_conllu(_file)
""",
"""    with open(path, mode="r", **({"encoding": "utf-8"} if sys.version_info < (3, 0) else {})) as _file:
        return load_conllu(_file)
""")]
DEMO = """
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.conllu')
    with open(p, 'w', encoding='utf-8') as f:
        f.write('\\t'.join(['1', '\\u0416'] + ['_'] * 4 + ['0', 'root', '_', '_']) + '\\n\\n')
    code = 'import sys; from babylondigger.evaluation import conll17_ud_eval as e; ' \\
        'assert "".join(e.load_conllu_file(sys.argv[1]).characters) == chr(0x416)'
    env = dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    r = subprocess.run([sys.executable, '-c', code, p], env=env)
    assert r.returncode == 0, r.returncode
finally:
    shutil.rmtree(d)
"""
