#!/bin/bash
# rewrite the "fixed:" lines of known_findings.txt: property given by a map of commit subject -> property
cd "$(dirname "$0")/.." || exit 1
grep -v '^fixed:' known_findings.txt > kf.tmp
git -C /repo log --reverse --format='%h|%s' | grep '|fix: ' | while IFS='|' read -r h s; do
  p=$(grep -F "|${s#fix: }" tools/fixmap.txt | cut -d'|' -f1)
  echo "fixed: property=${p:-UNMAPPED} $h ${s#fix: }" >> kf.tmp
done
mv kf.tmp known_findings.txt
grep UNMAPPED known_findings.txt
