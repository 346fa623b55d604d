#!/bin/sh
# b.sh PROP [SEED] [BUDGET] [ONLY] : run the bounded layer alone and print its result
cd ${PYDV_REPO:-/repo} && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=${PYDV_REPO:-/repo} MPLCONFIGDIR=/tmp/mpl EVOGIL_SCRATCH=/tmp/evs /opt/venv/bin/python -W ignore /verif/bounded/run.py $1 ${2:-1} ${3:-40} ${TIER:-quick} $4 | grep '^@@RESULT' | tail -1 | sed 's/^@@RESULT //' | python3-vt -c "
import json,sys
s=sys.stdin.read()
try: d=json.loads(s)
except Exception: print(s); raise SystemExit
for c in d['checks']: print(c)
print('skipped',d['skipped'])
for f in d['failures']: print('FAIL',f['check'],f['input'][:600],'\n    ',f['detail'][-1200:])
"
