"""Concrete replay on the project's interpreter, with the unmodified package.

usage: replay.py FILE      re-runs one recorded counterexample, exit 1 if it still fails
       replay.py --batch   reads a JSON list on stdin, prints results"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(5000)

from symx import lib as symlib          # noqa: E402
from symx.ctx import Concrete, CheckFailed, Skip          # noqa: E402


def one(lib, item):
    mod = importlib.import_module(item['module'])
    fn = getattr(mod, item['fn'])
    n = item.get('renames', 1)
    first = item.get('rename')
    status = 'ok'
    seq = range(n) if first is None else [first]
    for r in seq:
        ctx = Concrete(lib, item['params'], item['values'], r)
        lib.ud.RaiseOnUndef.reset()
        try:
            fn(ctx)
        except CheckFailed as e:
            return {'status': 'violated', 'msg': str(e), 'rename': r}
        except Skip:
            status = 'skipped' if status == 'ok' else status
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join('%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name)
                              for f in tb[-4:])
            return {'status': 'violated', 'msg': 'unexpected %s: %s [%s]' % (
                type(e).__name__, str(e)[:200], where), 'rename': r}
        finally:
            lib.ud.RaiseOnUndef.reset()
    return {'status': status}


def main():
    lib = symlib.load(False)
    done = set()
    if sys.argv[1] == '--batch':
        items = json.load(sys.stdin)
        out = []
        for it in items:
            if it['module'] not in done:
                m = importlib.import_module(it['module'])
                done.add(it['module'])
                if hasattr(m, 'setup'):
                    m.setup(lib, False)
            out.append(one(lib, it))
        sys.stdout.write('@@RESULT' + json.dumps(out))
        return 0
    item = json.load(open(sys.argv[1]))
    m = importlib.import_module(item['module'])
    if hasattr(m, 'setup'):
        m.setup(lib, False)
    r = one(lib, item)
    print(item.get('property'), item.get('fn'), json.dumps(item.get('params')))
    print(json.dumps(item['values']))
    print(r['status'], r.get('msg', ''))
    return 1 if r['status'] == 'violated' else 0


if __name__ == '__main__':
    sys.exit(main())
