#!/bin/bash
# run.sh check PROP [--tier T] | replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 3
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
case "$1" in
  check) shift; exec $PY -m vc.check "$@";;
  replay) shift; exec $PY -m vc.replay "$@";;
  selftest) shift; exec $PY -m vc.selftest "$@";;
esac
exit 3
