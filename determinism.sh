#!/bin/bash
# The same runs in one process, in one process with another hash seed, and in four processes: equal event logs?
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
log() { /opt/venv/bin/python -m sim.runner log "$@"; }
one() {
    a=$(PYTHONHASHSEED=1 log "$1" 100 40 | sha256sum)
    b=$(PYTHONHASHSEED=77 log "$1" 100 40 | sha256sum)
    c=$(for i in 100 110 120 130; do PYTHONHASHSEED=$i log "$1" $i 10; done | sha256sum)
    [ "$a" = "$b" ] && [ "$a" = "$c" ] && echo "$1 equal ${a:0:12}" || echo "$1 DIFFERENT"
}
for p in sim/props/p??.py; do p=$(basename "$p" .py); one "${p^}" & done
wait
