#!/bin/bash
# evalseeded.sh [-check] ids...: confirm planted bugs in a scratch copy; with -check also run this property's check on /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
check=; [ "${1:-}" = -check ] && { check=1; shift; }
[ $# -eq 0 ] && set -- $(ls "$here/seeded")
s=$(mktemp -d /tmp/evalseeded.XXXXXX) || exit 2
trap 'rm -rf "$s"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
for id; do
  d=$here/seeded/$id
  rm -rf "$s/repo"; cp -r /repo "$s/repo"
  (cd "$s/repo" && bash "$d/demo.sh" >"$s/clean.log" 2>&1); a=$?
  git -C "$s/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  t=ok
  for m in . v2; do
    cp "$s/repo/$m/go.mod" "$s/x.mod"; cat "$s/repo/$m/go.sum" /opt/vp/gomod/*.extra.sum 2>/dev/null | sort -u >"$s/x.sum"
    (cd "$s/repo/$m" && GOFLAGS="-mod=mod -modfile=$s/x.mod" go test -vet=off -count=1 ./... >"$s/test.log" 2>&1) || { t=FAILS; grep -m3 -e '--- FAIL' -e 'error' "$s/test.log"; }
  done
  (cd "$s/repo" && timeout 300 bash "$d/demo.sh" >"$s/bug.log" 2>&1); b=$?
  c=
  if [ -n "$check" ]; then
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply "$d/patch.diff"
    (cd "$here" && VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=1 bash run.sh $p >"$s/check.log" 2>&1); r=$?
    git -C /repo checkout -- .
    c="check $p exit $r $(grep -m1 -c '^VIOLATION' "$s/check.log") $(tail -1 "$s/check.log" | sed 's/.*, //')"
    [ $r -gt 1 ] && tail -5 "$s/check.log"
  fi
  echo "$id: clean $a bug $b tests $t $c"
done
