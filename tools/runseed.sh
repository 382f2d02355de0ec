#!/bin/bash
# runseed.sh ID [tier]: applies a planted bug to a copy of /repo and runs the check of its property (or $PROPS) against it.
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; tier=${2:-quick}
p=${PROPS:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
w=$(mktemp -d /tmp/rs.XXXXXX); trap 'rm -rf "$w"' EXIT
git clone -q /repo $w/repo && git -C $w/repo apply $V/seeded/$id/patch.diff || exit 2
rsync -a --exclude .git --exclude seeded --exclude evidence $V/ $w/verif 2>/dev/null || { mkdir $w/verif; tar -C $V --exclude .git --exclude seeded --exclude evidence -cf - . | tar -C $w/verif -xf -; }
for q in $p; do VERIF_REPO=$w/repo python3 $w/verif/check.py $q $tier > $w/log 2>&1; rc=$?; echo "$id $q $tier rc=$rc"; grep -h VIOLATION $w/log | head -1 | cut -c1-250; [ $rc = 1 ] || tail -3 $w/log | cut -c1-300; done
