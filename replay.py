#!/usr/bin/env python3
"""replay.py <evidence/replay/...json>: run a recorded counterexample against
/repo's current sources (gcc, ASan, UBSan, real GLib).  exit 1: reproduced."""
import sys, os, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import check
d = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix='vp_replay_')
try:
    b = check.Build(w)
    with ThreadPoolExecutor(8) as ex:
        exe = check.build_native(b, d, ex)
    rf = os.path.join(w, 'in.txt')
    open(rf, 'w').write('\n'.join(d['inputs']) + '\n')
    kind, what = check.replay(exe, [rf], w)
finally:
    shutil.rmtree(w, ignore_errors=True)
print(d['property'], d['variant'], d['assertion'])
print(kind + ': ' + what)
sys.exit(1 if kind in ('fail', 'crash', 'hang') else 0)
