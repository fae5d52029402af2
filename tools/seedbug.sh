#!/bin/bash
# usage: seedbug.sh ID  : confirm a planted bug (patch applies, stable tests pass, demo discriminates) and run its check
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash $D/demo.sh >/tmp/demo0.txt 2>&1; a=$?
git apply $D/patch.diff || { echo "patch fails"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
/tmp/t.sh 2>/dev/null || true
bash $D/demo.sh >/tmp/demo1.txt 2>&1; b=$?
echo "$ID demo unchanged=$a patched=$b; $(tail -1 /tmp/demo1.txt)"
if [ -n "$2" ]; then P="${*:2}"; fi
for q in $P; do
  s=$(date +%s); (cd /verif && ./check $q quick >/tmp/chk.txt 2>&1); c=$?; e=$(date +%s)
  echo "$ID check $q exit=$c in $((e-s))s: $(grep -E '^(class|CHECK)' /tmp/chk.txt | cut -c1-300)"
done
