#!/bin/sh
# prove the goals of several properties (one process per goal), one summary line per goal
for p in "$@"; do
  echo "== $p"; o=$(mktemp)
  timeout 1200 python3-vt /verif/prove.py "$p" "$o" "${VERIF_TIER:-quick}" >/dev/null 2>&1
  python3-vt - "$o" <<'P'
import json, sys
r = json.load(open(sys.argv[1]))
if r.get('error'): print(r['error'])
for g in r['goals']:
    print('  %s %s | paths %s obl %s/%s %.1fs' % ('ok ' if not g['failures'] and not g['unsupported'] and g['discharged'] == g['obligations'] else 'BAD', g['name'], g.get('paths'), g['discharged'], g['obligations'], g.get('wall', 0)))
    for f in g['failures'][:3]: print('     FAIL', f['obligation'], '|', f['detail'][:300], '|', f['model'])
    for u in g['unsupported'][:2]: print('     UNSUP', u[-500:])
P
  rm -f "$o"
done
