#!/bin/bash
# runseed.sh ID [PROP]: run a property's check against a scratch copy with the planted bug applied (development aid)
d=$(mktemp -d /tmp/rs_XXXX); git clone -q --shared /repo $d/r; git -C $d/r apply /verif/seeded/$1/patch.diff || echo NOAPPLY
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
SA_REPO=$d/r python3 /verif/check.py $p > $d/o 2>&1; r=$?
echo "== $1 $p exit $r"; grep -m3 "\[" $d/o | cut -c1-220
rm -rf "$d"
