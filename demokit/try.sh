#!/bin/bash
# try.sh ID... : run the property's check on a scratch copy of the repository with the planted bug applied
for b in "$@"; do
  rm -rf /tmp/tryrepo$$; git clone -q /repo /tmp/tryrepo$$
  git -C /tmp/tryrepo$$ apply /verif/seeded/$b/patch.diff || exit 9
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  VERIF_REPO=/tmp/tryrepo$$ VERIF_OUT=/tmp/tryout$$ python3 /verif/analysis/check.py $p > /tmp/try$$.out 2>&1; rc=$?
  echo "$b $p exit $rc: $(grep -m1 'broken at\|error\|Error' /tmp/try$$.out | cut -c1-200)"
done
rm -rf /tmp/tryrepo$$
