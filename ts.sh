#!/bin/bash
# run a property and show the costs of its slow or incomplete tasks
cd /verif && python3 run.py "$@" 2>&1 | tail -40; python3 -c "
import json
for t in json.load(open('evidence/$1.json'))['coverage']['tasks']:
  if t['wall_s']>15 or t['status']!='complete': print(t['harness'],t['params'],t['status'],'paths',t['paths'],'q',t['queries'],'s',t['solver_s'],'w',t['wall_s'])"
