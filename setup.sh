#!/bin/bash
# boots one simulated process; nothing has to be built
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python - <<'P'
from sim import driver
p = driver.Pool(1)
r = p.run({'steps': [{'t': 'script', 's': [
    {'f': 'OperatorSymbol', 'a': ['A'], 'k': {'hs': 0}}]}]})
p.close()
assert 'ok' in r, r
print('simulated process boots:', r['ok']['stats'])
P
