#!/bin/bash
# seedrun.sh [ID...]: run the check of each planted change against a scratch copy of /repo with the change applied
W=/tmp/seedrun-work
cd /verif
for id in ${@:-$(ls seeded)}; do
  c=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  python3 -c "import shutil;shutil.rmtree('$W',ignore_errors=True);shutil.copytree('/repo','$W',symlinks=True)"
  git -C $W apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  cp evidence/$c.json /tmp/seedrun-ev.json
  o=$(VERIF_REPO=$W timeout 900 python3 check.py $c); rc=$?
  cp /tmp/seedrun-ev.json evidence/$c.json
  echo "$id rc=$rc $(echo "$o" | head -1) | $(echo "$o" | grep -c 'failing input') inputs | $(echo "$o" | grep VIOLATION | grep -o no-failing-input-found) $(echo "$o" | grep -E 'undecided|failed:|refuted' | head -2 | cut -c1-150)"
done
python3 -c "import shutil;shutil.rmtree('$W',ignore_errors=True)"
