#!/bin/bash
# developer helper: run Kani on one property's contracts and print a table
cd /verif/kani/harness; F=$1; shift
rm -f /tmp/o_$F.json
CARGO_NET_OFFLINE=true timeout ${T:-1500} cargo kani --features $F --target-dir /verif/build/kani-target -j 8 --output-format terse --no-assertion-reach-checks --no-overflow-checks -Z unstable-options --harness-timeout ${HT:-200}s --export-json /tmp/o_$F.json "$@" > /tmp/k_$F.log 2>&1
grep -E "^error|panicked" -A6 /tmp/k_$F.log | head -${EL:-60}
python3 - $F <<'P'
import json,sys
d=json.load(open(f'/tmp/o_{sys.argv[1]}.json'))
for r in sorted(d['verification_results']['results'],key=lambda r:r['duration_ms']):
    print(r['harness_id'],r['status'],r['duration_ms']/1000,[ (c['description'],c['status'],c['location'].get('file','')[-30:],c['location'].get('line')) for c in r['checks'] if c['status'] not in('Success','Satisfied','Unreachable')][:4])
P
