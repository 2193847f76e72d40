#!/bin/bash
# sweep.sh [ID...]: apply each planted bug to a copy of /repo's working tree and run its property's quick check there.
# Prints the ones that are not caught. Needs no change of /repo; scratch copies are removed.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
ids=("$@"); [ $# -eq 0 ] && ids=($(ls "$here/seeded"))
missed=0
for id in "${ids[@]}"; do
  p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
  w=$(mktemp -d /tmp/sweep.XXXXXX)
  cp -a /repo "$w/repo"; cp -a "$here/harness" "$w/harness"
  if git -C "$w/repo" apply "$here/seeded/$id/patch.diff" &&
     (cd "$w/harness" && sed -i "s#=> /repo#=> $w/repo#" go.mod &&
        if [ "$p" = C12 ]; then CGO_ENABLED=1 go build -race -o "$w/check" ./cmd/check; else go build -o "$w/check" ./cmd/check; fi) &&
     timeout 900 "$w/check" -prop "$p" -verif "$w/v" -repo "$w/repo" 2>&1 | grep -q "^VIOLATION property=$p "; then :; else echo "NOT CAUGHT: $id ($p)"; missed=$((missed+1)); fi
  rm -rf "$w"
done
echo "${#ids[@]} planted bugs, $missed not caught"
