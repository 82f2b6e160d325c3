#!/bin/bash
# Show per-job figures of the last run of a property.
python3 - "$1" <<'P'
import json,sys,os
d=json.load(open(os.path.join('/verif/evidence',sys.argv[1]+'.json')))
for j in d['coverage']['jobs']: print(j['job'],j['states'],j['transitions'],j['traces'],j['max_depth'],j['exhaustive'],j['wall_s'])
print(d['coverage']['notes'])
P
