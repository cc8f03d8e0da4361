#!/bin/bash
# tools/try_seed.sh ID...: confirm a planted bug (demo passes clean, fails patched; builds; stable tests pass) and run its check
cd /repo || exit 1
[ -z "$(git status --porcelain -uno)" ] || { echo "/repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  S=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  bash $S/demo.sh > /tmp/demo.$id.0 2>&1; a=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1
  t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('/tmp/seedtest.json'))['passed'];print('tests ok' if set(b)<=set(p) else 'TESTS FAIL %s'%(set(b)-set(p)))"); else t=skipped; fi
  bash $S/demo.sh > /tmp/demo.$id.1 2>&1; b=$?
  (cd /verif; python3-vt check.py $prop > /tmp/seedcheck.$id 2>&1); c=$?
  git checkout -q -- .
  echo "$id [$prop] demo clean=$a patched=$b; $t; check rc=$c; $(grep -c '^failed obligation' /tmp/seedcheck.$id) obligations; $(grep '^VIOLATION' /tmp/seedcheck.$id | sed 's/.*txt//') $(grep -m1 -E '^concrete|^UNDECIDED|^ERROR' /tmp/seedcheck.$id | cut -c1-160)"
  [ "$a" = 0 ] || cat /tmp/demo.$id.0 | tail -5
done
