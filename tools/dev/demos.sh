# demos.sh ID...: run demo on clean and patched trees (worktree copy, headers only)
for id in "$@"; do
 D=/verif/seeded/$id
 W=/tmp/dw_$id; git -C /repo worktree remove --force $W 2>/dev/null; git -C /repo worktree add -q --detach $W
 cp -r /repo/lib $W/ 2>/dev/null
 chmod +x $D/demo.sh
 (cd $W && bash $D/demo.sh >/tmp/demo_$id.clean 2>&1); c=$?
 (cd $W && git apply $D/patch.diff && bash $D/demo.sh >/tmp/demo_$id.pat 2>&1); p=$?
 echo "$id clean=$c patched=$p"
 git -C /repo worktree remove --force $W
done
