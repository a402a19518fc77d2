cd /verif/mc && cargo build --offline --release --target-dir /verif/build/t --bin $1 2>&1 | grep -E "^error" -A12
shift_tier=${2:-quick}
/usr/bin/time -f "%es %MKB" ../build/t/release/$1 run --tier $shift_tier $3 $4 --out /tmp/$1.json ; python3 - $1 <<'P'
import json,sys
d=json.load(open('/tmp/%s.json'%sys.argv[1]))
for f in d['families']: print(f['name'],f['units'],f['units_done'],f['executions'],f['cpu_ms'])
print({k:d[k] for k in ('states','transitions','executions','nontrivial','exhaustive','known')}); print(json.dumps(d['violation'],indent=1)[:3000] if d['violation'] else 'OK')
P
