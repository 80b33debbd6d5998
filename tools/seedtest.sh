#!/bin/bash
# seedtest.sh [-t] [-c] ID...: validates planted bugs in a private copy of /repo; -t skips the stable tests, -c skips the check; CHECKS="C01 C02" overrides which checks run
skipt=; skipc=
while [ "${1#-}" != "$1" ]; do case $1 in -t) skipt=1;; -c) skipc=1;; esac; shift; done
for id in "$@"; do
    d=/verif/seeded/$id
    w=$(mktemp -d /tmp/seed.XXXXXX)
    cp -a /repo "$w/repo"
    mkdir "$w/verif" "$w/demo"
    (cd /verif && tar cf - --exclude=./seeded --exclude=./evidence --exclude=./.git --exclude=./.build . ) | tar xf - -C "$w/verif"
    mkdir -p "$w/verif/.build" "$w/verif/evidence"
    cp "$d"/* "$w/demo/"; rm -f "$w"/demo/*.diff "$w/demo/meta.json"
    checks=${CHECKS:-$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")}
    unshare -Urm bash -s "$w" "$d" "$id" "$skipt" "$skipc" $checks <<'N'
w=$1 d=$2 id=$3 skipt=$4 skipc=$5; shift 5
cp -a "$d" "$w/orig"
mount --bind "$w/repo" /repo; mount --bind "$w/verif" /verif
cd /repo
timeout 300 bash "$w/demo/demo.sh" >"$w/demo0.log" 2>&1; a=$?
git apply "$w/orig/patch.diff" || { echo "$id: patch does not apply"; exit; }
bash /opt/vp/build.sh >"$w/build.log" 2>&1 || { echo "$id: build fails"; tail -5 "$w/build.log"; exit; }
timeout 300 bash "$w/demo/demo.sh" >"$w/demo1.log" 2>&1; b=$?
t=skipped
if [ -z "$skipt" ]; then
    bash /opt/vp/test.sh "$w/t.json" >"$w/t.log" 2>&1; t=$(tail -1 "$w/t.log")
fi
echo "$id: demo $a -> $b; tests: $t"
[ $a = 0 ] || tail -5 "$w/demo0.log"
[ $b != 0 ] && tail -2 "$w/demo1.log" | cut -c1-300
[ -n "$skipc" ] && exit
cd /verif
for c in "$@"; do
    s=$SECONDS
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run $c >"$w/c.log" 2>&1; r=$?
    echo "$id: $c exit $r, $((SECONDS - s)) s: $(grep -m1 VIOLATION "$w/c.log")"
    grep -v VIOLATION "$w/c.log" | tail -${LINES_:-3} | cut -c1-300
done
N
    rm -rf "$w"
done
