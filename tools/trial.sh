#!/bin/bash
# trial.sh WORKER PATCH ID...   tries checks on a patched copy of /repo
# Copies of /repo and /verif in /tmp/wt/WORKER are mounted over /repo and
# /verif in a namespace of this process alone; PATCH is a diff for `git apply`,
# "-" for none, or "revert:COMMIT".
w=/tmp/wt/$1 patch=$2
shift 2
mkdir -p "$w"
if [ ! -d "$w/repo" ]; then
    cp -a /repo "$w/repo"
    mkdir "$w/verif"
fi
(cd "$w/repo" && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -qfd) || exit 4
# Only what is not built; the builds of the worker are kept.
tar -C /verif --exclude='./target*' --exclude=./evidence --exclude=./replays --exclude=./seeded --exclude=./.git -cf - . | tar -C "$w/verif" -xf -
for d in target target-cli target-cli-ff target-vs; do
    [ -d "$w/verif/$d" ] || cp -a "/verif/$d" "$w/verif/$d" 2>/dev/null
done
cd "$w/repo"
case $patch in
-) ;;
revert:*) git revert --no-commit "${patch#revert:}" >/dev/null 2>&1 || { echo "CONFLICT $patch"; git revert --abort 2>/dev/null; git checkout -qf HEAD; exit 5; } ;;
*) git apply "$patch" || { echo "DOES NOT APPLY $patch"; exit 5; } ;;
esac
for id in "$@"; do
    s=$(date +%s)
    unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && VERIF_SEED=${VERIF_SEED:-1} ./check $id ${ARGS}" >"$w/log.$id" 2>&1
    r=$?
    echo "$patch $id exit=$r $(($(date +%s) - s))s $(grep -m1 -o '^C[0-9]* \[[a-z0-9-]*\]: .*' "$w/log.$id" | cut -c1-160)"
    [ $r = 3 ] && tail -n 3 "$w/log.$id"
done
cd /; git -C "$w/repo" checkout -qf HEAD
