#!/bin/sh
# replay.sh FILE: runs a replay file again; exit 1 when the violation is reproduced
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec "${DST_PYTHON:-/opt/venv/bin/python}" -B -m dst.main replay "$f"
