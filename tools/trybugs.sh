# tries every planted bug against its check: trybugs.sh [ids]
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo $d NOAPPLY; continue; }
  out=$(VERIF_SEED=1 python3 check.py $p 2>/tmp/tb.err); rc=$?
  git -C /repo checkout -q -- .
  echo "$d rc=$rc $(echo $out | cut -c1-120) | $(grep -E 'failed obligation|FAIL|undecided' /tmp/tb.err | head -3 | cut -c1-160 | tr '\n' '|')"
done
