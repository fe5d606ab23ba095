#!/bin/bash
# trybug.sh SEED [PROP...]: applies a planted bug to /repo, runs the checks, undoes it.
cd /verif; id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
for p in $props; do VERIF_SEED=1 timeout 890 ./check.sh $p > /tmp/try.$id.$p 2>&1; echo "$id $p exit=$? $(grep -a '^VIOLATION' /tmp/try.$id.$p) $(grep -a 'failing input' /tmp/try.$id.$p | cut -c1-160)"; done
git -C /repo checkout -- .
