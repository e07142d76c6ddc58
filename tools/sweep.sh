# tools/sweep.sh SEED SCALE [ID...]: every quick check with another seed; prints
# only what is not quiet.
seed=$1; scale=$2; shift 2
cd "$(dirname "$0")/.."
ids="$*"; [ -n "$ids" ] || ids=$(python3 -c 'from checks import CHECKS; print(" ".join(sorted(CHECKS)))')
for id in $ids; do
  out=$(VERIF_SEED=$seed VERIF_SCALE=$scale timeout 1500 python3 run.py $id quick 2>&1); rc=$?
  echo "$out" | tail -1
  [ $rc = 0 ] || { echo "== $id rc=$rc"; echo "$out" | tail -40; }
done
