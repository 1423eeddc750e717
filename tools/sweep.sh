# usage: sweep.sh ID "seeds" extra...
cd $(dirname $(readlink -f $0))/..; id=$1; seeds=$2; shift 2
for s in $seeds; do python3 run.py $id --seed $s "$@" 2>&1 | tail -3 | grep -v "^$"; done
