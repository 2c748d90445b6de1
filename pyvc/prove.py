"""python3-vt -m pyvc.prove MODULE CONTRACT OUT.json: verify one contract."""
import importlib
import json
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)


def main(mod, name, out):
    try:
        m = importlib.import_module('contracts.' + mod)
        c = getattr(m, name)
        res = c.verify()
    except Exception as e:      # the interface under contract is gone
        res = {'contract': name, 'title': name, 'target': '?',
               'status': 'unsupported', 'obligations': 0, 'discharged': 0,
               'refuted': [], 'unknown': [], 'dropped': 0, 'loops': {},
               'backends': {}, 'used': [], 'inlined': [], 'time': 0,
               'solver': {}, 'models': [],
               'reason': 'load: %s: %s' % (type(e).__name__, e)}
    res['module'] = mod
    with open(out + '.tmp', 'w') as fp:
        json.dump(res, fp, default=str)
    os.replace(out + '.tmp', out)


if __name__ == '__main__':
    main(*sys.argv[1:4])
