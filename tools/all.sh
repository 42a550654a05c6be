#!/bin/bash
# all registered checks on /repo, four at a time: tools/all.sh [tier]
cd /verif
python3 -c "import json;print('\n'.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']))" | xargs -P 6 -I{} bash -c 'python3-vt sa/run.py {} --tier '${1:-quick}' 2>&1 | cut -c1-400 | tail -3 | sed "s/^/{} rc=$? | /"' | grep -v "undecided=0 .*wall" ; echo done
