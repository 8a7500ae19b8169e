#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [extra options]
cd "$(dirname "$0")" || exit 2
P=$1; shift
T=${VERIF_TIER:-quick}
case "$1" in quick|thorough) T=$1; shift;; esac
exec /opt/venv/bin/python harness/check.py "$P" --tier "$T" "$@"
