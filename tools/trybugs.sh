#!/bin/bash
# trybugs.sh [ID...]: applies each planted bug to /repo, runs its property's quick check (ALL=1: every check), undoes it.
cd /verif || exit 1
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for b in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  list=$p; [ -n "$ALL" ] && list=$(python3 -c "import json;print(' '.join(json.loads(l)['id'] for l in open('properties.jsonl')))")
  caught=""
  for q in $list; do
    t=$(date +%s%N)
    VERIF_SEED=${VERIF_SEED:-1} timeout 900 bash check.sh $q quick >/tmp/try.log 2>&1; rc=$?
    if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$q " /tmp/try.log; then caught="$caught $q"; fi
    [ $rc -gt 1 ] && { echo "  $b: $q gave no answer ($rc)"; tail -3 /tmp/try.log; }
  done
  git -C /repo checkout -q -- .
  case " $caught " in *" $p "*) echo "$b $p CAUGHT by:$caught";; *) echo "$b $p MISSED (others:$caught)";; esac
done
