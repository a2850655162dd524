#!/bin/bash
# seed.sh take ID PROP 'needs' 'what': turns /repo's uncommitted change into /verif/seeded/ID (main.go must be there)
# seed.sh try ID [notest] [nocheck]: applies it, runs the tests, the demonstration and the quick check of its property, undoes it
set -u
d=/verif/seeded/$2
case $1 in
take)
  mkdir -p "$d"; git -C /repo diff > "$d/patch.diff"; cp /verif/meta/kit/* "$d/"
  python3 - "$d/meta.json" "$3" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
  git -C /repo checkout -- . ;;
try)
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/seed.demo 2>&1); echo "$2 demo without: $?"
  git -C /repo apply "$d/patch.diff" || { echo "does not apply"; exit 2; }
  (cd /repo && bash $d/demo.sh >/tmp/seed.demo 2>&1); echo "$2 demo with: $? $(tail -1 /tmp/seed.demo)"
  case " $* " in *" notest "*) ;; *) bash /verif/meta/rt.sh ;; esac
  case " $* " in *" nocheck "*) ;; *) (cd /verif; s=$(date +%s); timeout 900 env VERIF_SEED=1 VERIF_TIER=quick ./check.sh $p quick >/tmp/seed.check 2>&1; echo "$2 check $p: $? ($(( $(date +%s) - s )) s)"; grep VIOLATION /tmp/seed.check | head -2; tail -3 /tmp/seed.check) ;; esac
  git -C /repo checkout -- . ;;
esac
