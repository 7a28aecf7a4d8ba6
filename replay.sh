#!/bin/bash
# replay.sh FILE: runs the execution recorded in a replay file again (exit 1 if it violates).
here=$(dirname "$(realpath "$0")")
f=$(realpath "${1:?usage: replay.sh FILE}")
bin=$(bash "$here/build.sh") || exit 2
export RSIM_KNOWN="$here/known_findings.txt"
exec "$bin" replay "$f"
