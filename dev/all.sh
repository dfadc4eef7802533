#!/bin/bash
# all checks on DRIFT_REPO (default /repo), 7 at a time
export DRIFT_EVIDENCE=${DRIFT_EVIDENCE:-/tmp/ev}; mkdir -p $DRIFT_EVIDENCE
python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']: print(c['property'])" | xargs -P 7 -I{} sh -c 'python3-vt /verif/tool/check.py {} --tier ${TIER:-quick} 2>&1 | grep -v KNOWN | cut -c1-600 | tail -2'
