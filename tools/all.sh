# every check, one after another: tools/all.sh [SEED [TIER]]
cd "$(dirname "$0")/.."
seed=${1:-1}; tier=${2:-quick}
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22; do
 timeout 900 bin/check $p --seed $seed --tier $tier > /tmp/all_$p.log 2>&1; echo "$p rc=$? $(tail -1 /tmp/all_$p.log)"
done
