"""run.py <property> <seed> <seconds> <max trials> <out.json>   |   run.py replay <replay.json>"""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if sys.argv[1] == 'replay':
    with open(sys.argv[2]) as f:
        rep = json.load(f)
    import common
    mod = importlib.import_module('h' + rep['property'][1:])
    st, msg, h = common.run_trial(mod, rep['seed'])
    print(st, msg)
    for k, v in h.inputs.items():
        print('  %s = %s' % (k, repr(v)[:1000]))
    sys.exit(1 if st == 'bad' else 0)
import common
common.main(importlib.import_module('h' + sys.argv[1][1:]), sys.argv[2:])
