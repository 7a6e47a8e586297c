#!/usr/bin/env python3
"""python3 /verif/check.py <property id>: decide one property from /repo's current source."""
import importlib
import os
import sys
import time
import threading

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def main():
    t0 = time.time()
    from checks import base
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid.lower())
    chk = base.Check(pid)
    try:
        threading.Thread(target=base.watch, daemon=True).start()
        mod.check(chk)
    except base.OutOfTime:
        chk.add('UNDECIDED', 'the remaining obligations', '', 'no time left')
    except base.AnchorMissing as e:
        print('analysis broken: public anchor %s is missing' % e)
        return 2
    return base.finish(chk, t0, getattr(mod, 'ASSUMPTIONS', ()), getattr(mod, 'RULE', ''))


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 3)
