#!/bin/bash
# replay.sh <counterexample file>: runs it against the real code
here=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$here" "$1" <<'E'
import re, sys
sys.path.insert(0, sys.argv[1]); sys.argv[0] = sys.argv[1] + '/check.py'
import importlib.util
s = importlib.util.spec_from_file_location('check', sys.argv[1] + '/check.py'); c = importlib.util.module_from_spec(s); s.loader.exec_module(c)
t = open(sys.argv[2]).read()
h, cfg = re.search(r'# harness (\S+), .*SX_CFG="(.*)"', t).groups()
lab = re.search(r'label (\S+),', t)[1]
r = dict(h=h, **{k: int(v) for k, v in (x.split('=') for x in cfg.split())})
ok, log = c.confirm(h, r, lab, sys.argv[2])
print(log); print('confirmed' if ok else 'not confirmed'); sys.exit(0 if ok else 1)
E
