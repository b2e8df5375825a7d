#!/bin/bash
# check.sh <PROPERTY> quick|thorough — build the simulator from /repo's working tree, then search seeded executions.
cd "$(dirname "$0")" || exit 3
P=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}; B=$PWD/build; FL=plain; [ "$P" = C26 ] && FL=asan   # memory errors: the same simulator, editor built with AddressSanitizer
mkdir -p "$B" evidence
bash sim/build.sh "$B" $FL >"$B/build.$P.log" 2>&1 || { cat "$B/build.$P.log" >&2; echo "check: build failed" >&2; exit 3; }
if [ "$TIER" = thorough ]; then RUNS=${EDSIM_RUNS:-250000}; CAP=${EDSIM_TIME:-3600}; else RUNS=${EDSIM_RUNS:-12000}; CAP=${EDSIM_TIME:-75}; fi
mkdir -p "$B/replay"
exec "$B/$FL/edsim" check --prop "$P" --tier "$TIER" --seed "$SEED" --runs "$RUNS" --time "$CAP" --jobs "${EDSIM_JOBS:-8}" \
  --known known_findings.txt --evidence "evidence/$P.json" --out "$B/replay"
