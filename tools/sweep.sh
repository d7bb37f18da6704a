# tryseeds.sh ids: apply each, run its check
for s in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$s/patch.diff || continue
t=$(date +%s); o=$(cd /verif; VERIF_SEED=1 VERIF_TIER=quick bash check.sh $p 2>&1); rc=$?
git -C /repo checkout -q -- .
echo "$s $p rc=$rc $(( $(date +%s)-t ))s $(echo "$o" | grep -a VIOLATION | head -2)"; done
