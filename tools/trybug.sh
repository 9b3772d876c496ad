#!/bin/bash
# trybug.sh <id> [notest] [check...] : confirms a planted change and runs its property's quick check
V="$(cd "$(dirname "$0")/.." && pwd)"; id=$1; shift
d=$V/seeded/$id; nt=0; [ "$1" = notest ] && { nt=1; shift; }
checks="$*"; [ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ $nt = 0 ]; then bash $d/demo.sh >/tmp/demo.$id.clean 2>&1; echo "$id demo clean rc=$? (want 0)"; fi
git apply $d/patch.diff || exit 1
if [ $nt = 0 ]; then
  bash /opt/vp/build.sh >/tmp/build.$id.log 2>&1; echo "$id build rc=$?"
  bash /opt/vp/test.sh /tmp/test.$id.json >/dev/null 2>&1
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(f'/tmp/test.{sys.argv[1]}.json'))
st=b.get('stable') or b.get('passed') or b
pas=set(r.get('passed',[])); want=set(st) if isinstance(st,list) else set(st.get('passed',[]))
print(sys.argv[1],'stable',len(want),'missing',sorted(want-pas))
P
  bash $d/demo.sh >/tmp/demo.$id.bug 2>&1; echo "$id demo patched rc=$? (want 1): $(tail -1 /tmp/demo.$id.bug)"
fi
for c in $checks; do bash $V/check.sh $c quick >/tmp/chk.$id.$c 2>&1; echo "$id check $c rc=$? $(grep -m1 VIOLATION /tmp/chk.$id.$c)"; done
