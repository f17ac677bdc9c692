#!/bin/bash
# try_seed.sh ID [checks...]: confirms a planted bug (compiles, passes the tests, its demo fails) and runs the checks on it.
cd "$(dirname "$0")/.." || exit 2
. /opt/vp/env.sh
S="seeded/$1"
P="$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")"
shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$PWD/$S/patch.diff" || exit 2
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$SKIP" ]; then
  bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo "doesn't build"; tail -20 /tmp/seed-build.log; exit 1; }
  bash /opt/vp/test.sh /tmp/seed-tests.json >/dev/null 2>&1
  python3 - <<'P'
import json
d=json.load(open('/tmp/seed-tests.json'))
print("tests:",len(d['passed']),"passed, failed:",d['failed'])
P
  (cd /repo && bash "/verif/$S/demo.sh"); echo "demo with the change: $?"
fi
for p in ${@:-$P}; do timeout 900 ./check.sh $p quick >/tmp/seed-check.log 2>&1; echo "check $p: $?"; grep -E "VIOLATION|\[" /tmp/seed-check.log | cut -c1-300 | head -3; done
if [ -z "$SKIP" ]; then
  git -C /repo checkout -- .
  (cd /repo && bash "/verif/$S/demo.sh"); echo "demo without the change: $?"
fi
