#!/bin/bash
# tryrefactor.sh DIR PATCH [ID...]: the checks (all, or those named) on a copy of /repo under DIR with a behaviour-preserving patch applied; all must stay quiet.
d=${1:?scratch directory}; patch=$(realpath "${2:?patch}"); shift 2
rm -rf "$d/repo" "$d/verif"; mkdir -p "$d/verif"
cp -a /repo "$d/repo"; rm -rf "$d/repo/target"; git -C "$d/repo" apply "$patch" || exit 1
cp -a /verif/check.sh /verif/KNOWN_FINDINGS.txt /verif/properties.jsonl /verif/harness "$d/verif/"
[ -d "$d/target" ] && mv "$d/target" "$d/verif/target"
sed -i "s#\"/repo#\"$d/repo#g" "$d/verif/harness/Cargo.toml" "$d/verif/harness/src/dict.rs"
sed -i "s#cd /repo #cd $d/repo #" "$d/verif/check.sh"
ids=${*:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('/verif/properties.jsonl')])")}
bad=0
for id in $ids; do
  out=$(bash "$d/verif/check.sh" "$id" quick 2>&1); rc=$?
  if [ $rc -eq 0 ]; then echo "$id quiet"; else echo "$id NOT QUIET (exit $rc)"; echo "$out" | tail -20; bad=1; fi
done
mv "$d/verif/target" "$d/target"; rm -rf "$d/repo" "$d/verif"
exit $bad
