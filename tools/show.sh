#!/bin/sh
# show.sh PROP SCENARIO INDEX [BASE]: plan and event log of one run. For development.
cd "$(dirname "$0")/.." && PYTHONHASHSEED=0 PYTHONPATH="$PWD" exec /opt/venv/bin/python -B -m dst.main one "$@"
