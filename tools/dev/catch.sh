# catch.sh ID... : run the property's quick check on a patched worktree
for id in "$@"; do
 W=/tmp/cw_$id; git -C /repo worktree remove --force $W 2>/dev/null; git -C /repo worktree add -q --detach $W
 git -C $W apply /verif/seeded/$id/patch.diff
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 VERIF_REPO=$W timeout 900 /verif/bin/check $p --tier ${TIER:-quick} > /tmp/catch_$id.log 2>&1; echo "$id $p rc=$? $(grep -m1 -B1 VIOLATION /tmp/catch_$id.log | head -1 | cut -c1-150)"
 git -C /repo worktree remove --force $W
done
