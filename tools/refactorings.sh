n=$1; shift
cd /verif
for c in ${@:-$(seq -f C%02g 1 30)}; do
HYPERPACK_REPO=/tmp/rf/$n timeout 900 python3 mc/run.py $c > /tmp/rf/$n.$c.log 2>&1; echo "$n $c rc=$? $(tail -1 /tmp/rf/$n.$c.log | cut -c1-200)"
done
