#!/bin/bash
# run.sh P01 [--tier T] [--seed S] ... : one property check.
cd "$(dirname "$0")" || exit 3
. ./env.sh
P=$(echo "$1" | tr A-Z a-z); shift
exec "$VERIF_PY" -W ignore -m "props.$P" "$@"
