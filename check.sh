#!/bin/bash
# check.sh C01..C10: decides one property. VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
# Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed.
here=$(dirname "$(realpath "$0")")
id=${1:?usage: check.sh C01..C10}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $seed in '' | *[!0-9]*) seed=$(printf '%s' "$seed" | cksum | cut -d' ' -f1) ;; esac
bin=$(bash "$here/build.sh") || exit 2
case $tier in
thorough) args=(--runs 1000000000000 --seconds "${VERIF_SECONDS:-600}") ;;
*) tier=quick; args=(--runs "${VERIF_RUNS:-500000}") ;;
esac
export RSIM_KNOWN="$here/known_findings.txt"
exec "$bin" check --prop "$id" --seed "$seed" --tier "$tier" --workers "$(nproc)" "${args[@]}" \
    --evidence "$here/evidence/$id.json" --replays "$here/replays"
