cd $(dirname $(readlink -f $0))/..; rm -f replays/$1-*; grep -qs . /dev/null; python3 run.py $1 ${3:-} 2>&1 | tail -12 | cut -c1-400; [ -f replays/$1-quick-1.txt ] && tail -${2:-45} replays/$1-quick-1.txt; grep -E "error:" build/asan/build-$1.log | head -20
python3 - $1 <<'P'
import json,sys
try:
    d=json.load(open('evidence/%s.json'%sys.argv[1])); print(d['coverage']['scenarios'], d['coverage']['classes'])
except Exception as e: print(e)
P
