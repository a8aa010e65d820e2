#!/bin/bash
# trycopy.sh DIR [ID...]: like trybugs.sh, but on copies of the working trees of /repo and /verif under DIR, so that work can go on meanwhile.
d=${1:?scratch directory}; shift
rm -rf "$d/repo" "$d/verif"; mkdir -p "$d/verif"
git -C /repo worktree prune; cp -a /repo "$d/repo"; rm -rf "$d/repo/target"
cp -a /verif/check.sh /verif/KNOWN_FINDINGS.txt /verif/properties.jsonl /verif/harness /verif/seeded /verif/tools "$d/verif/"
[ -d "$d/target" ] && mv "$d/target" "$d/verif/target"
sed -i "s#\"/repo#\"$d/repo#g" "$d/verif/harness/Cargo.toml" "$d/verif/harness/src/dict.rs"
sed -i "s#cd /repo #cd $d/repo #" "$d/verif/check.sh"
sed -i "s#/verif#$d/verif#g; s#-C /repo#-C $d/repo#g; s#/tmp/try.log#$d/try.log#g" "$d/verif/tools/trybugs.sh"
bash "$d/verif/tools/trybugs.sh" "$@"
mv "$d/verif/target" "$d/target"
rm -rf "$d/repo" "$d/verif"
