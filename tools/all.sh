#!/bin/bash
# all.sh [PID...]: run every check, one line each
cd "$(dirname "$0")/.."
P=${@:-$(python3 -c "from pfsa.rules import registry; print(' '.join(sorted(registry())))")}
echo $P | tr ' ' '\n' | xargs -P 8 -I{} sh -c 's=$(date +%s); o=$(python3 -m pfsa.run {} 2>&1 | cut -c1-260 | head -6); echo "$o [$(( $(date +%s) - s ))s]"' | sort
