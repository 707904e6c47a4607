#!/usr/bin/env python3
"""Checks of the data tool.  tcheck.py ID | --replay FILE   (exit 0/1/2)"""
import collections, importlib, json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlib


def main(a):
    if a[:1] == ['--replay']:
        with open(a[1]) as f:
            v = json.load(f)
        mod = importlib.import_module(v['property'].lower())
        try:
            mod.replay(v['section'], v['case'])
        except tlib.Bad as e:
            print('%s [%s]: %s' % (v['property'], v['section'], e))
            print('VIOLATION property=%s replay=%s' % (v['property'], a[1]))
            return 1
        print('%s: the recorded case passes' % v['property'])
        return 0
    mod = importlib.import_module(a[0].lower())
    sections = mod.run()
    return tlib.finish(a[0], mod.RULE, mod.ASSUME, sections)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except tlib.NoAnswer as e:
        print('ERROR: ' + str(e)[:3000])
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.exit(rc)
