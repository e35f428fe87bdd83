#!/bin/bash
# run.sh Cxx : run the check of one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
unset PYTHONPATH PYTHONHOME PYTHONWARNINGS
export PYTHONPATH="$PWD/lib"
id=$(echo "$1" | tr A-Z a-z)
exec /opt/venv/bin/python -W ignore "checks/$id.py"
