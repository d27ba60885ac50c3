#!/bin/bash
# determinism.sh [runs]: the same seeds with 1 and with 8 worker processes must give the same executions.
# (not a check of a property of /repo; it tests the simulator)
here="$(cd "$(dirname "$0")" && pwd)"; n=${1:-400}
(cd "$here/sim" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" cargo build -q --release --offline --features serial --bin dvesim-builds 2>/dev/null) || exit 2
t=$(mktemp -d); rc=0
for p in $(python3 -c "import json;print(' '.join(c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks']))"); do
  for w in 1 8; do
    mkdir -p $t/v; cp "$here/known_findings.jsonl" $t/v/
    DVE_VERIF=$t/v DVE_HASHES=1 DVE_RUNS=$n DVE_WORKERS=$w "$here/target/release/dvesim-builds" check $p 2>&1 >/dev/null | grep -E '^[0-9]+ [0-9a-f]+ [0-9]+$' | sort -n >$t/$w
  done
  if cmp -s $t/1 $t/8 && [ -s $t/1 ]; then echo "$p $(wc -l <$t/1) runs identical"; else echo "$p DIFFERS: $(diff $t/1 $t/8 | head -3)"; rc=1; fi
done
rm -rf "$t"; exit $rc
