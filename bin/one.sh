#!/bin/bash
# run the worker by hand: one.sh PROP TIER SEED WORKER COUNT
export HOME=/root PYTHONDONTWRITEBYTECODE=1 JYTHONPATH=/opt/py2/lib
cd /tmp && /opt/py2/bin/jython /verif/sim/worker.py run "$1" "$2" "$3" "$4" "$5" /tmp/w/out.json && python3 - <<'P'
import json
r=json.load(open('/tmp/w/out.json'))
v=r['violation']
print({k:r[k] for k in ('runs','steps','switches','faults','stats','replayed','wall_s','boot_s','known')}, 'scheds',len(r['scheds']),'nontrivial',len(r['nontrivial']))
if v:
    print(v['kind'],v['detail'],'run',v['run']); print(v['choices'],v['shrink_runs'],v['original_choices']); print('\n'.join(v['trace'][-30:]))
P
