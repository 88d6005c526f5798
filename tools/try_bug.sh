#!/bin/bash
# try_bug.sh ID [notest] [CHECK...]: does seeded/ID apply, pass the stable tests, have a demo that tells
# it from the unchanged tree, and which checks catch it? Works on a scratch copy of /repo.
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"; shift
bug="$here/seeded/$id"
tests=1; [ "$1" = notest ] && { tests=0; shift; }
copy="$(mktemp -d /tmp/ptera-bug.XXXXXXXX)" || exit 3
case "$copy" in /tmp/ptera-bug.*) ;; *) exit 3 ;; esac
trap 'rm -rf -- "$copy"' EXIT
cp -a /repo "$copy/repo"
cd "$copy/repo" || exit 3
git checkout -q -- . 
bash "$bug/demo.sh" >"$copy/clean.log" 2>&1; clean=$?
git apply --check "$bug/patch.diff" && git apply "$bug/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash "$bug/demo.sh" >"$copy/bad.log" 2>&1; bad=$?
echo "$id: demo clean=$clean patched=$bad  $(tail -1 "$copy/bad.log")"
[ $clean = 0 ] || tail -5 "$copy/clean.log"
if [ $tests = 1 ]; then
  sed -e "s#/repo#$copy/repo#g" /opt/vp/test.sh >"$copy/test.sh"
  bash "$copy/test.sh" "$copy/out.json" >"$copy/test.log" 2>&1
  python3 - "$copy/out.json" "$id" <<'P'
import json, sys
t = json.load(open(sys.argv[1])); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
print(sys.argv[2] + ": stable tests failing:", [n for n in b if n not in t["passed"]])
P
fi
prop="$(python3 -c "import json;print(json.load(open('$bug/meta.json'))['property'])")"
for p in "$prop" "$@"; do
  PTERA_REPO="$copy/repo" "$here/check.sh" "$p" quick 2>&1 | grep -v "^KNOWN" | cut -c1-300 | head -2 | sed "s/^/$id: /"
done
