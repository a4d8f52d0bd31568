#!/bin/bash
# trybug.sh ID : run the property's check on a scratch copy with the bug applied
id=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
d=/tmp/tb_$id; rm -rf $d; mkdir -p $d; git -C /repo archive HEAD | tar x -C $d; (cd $d; git init -q .; git apply /verif/seeded/$id/patch.diff)
cd /verif; VERIF_REPO=$d timeout 900 ./check $p > /tmp/w/tb_$id.log 2>&1; echo "$id exit=$? $(grep -c VIOLATION /tmp/w/tb_$id.log) $(grep VIOLATION /tmp/w/tb_$id.log | head -1)"; rm -rf $d
