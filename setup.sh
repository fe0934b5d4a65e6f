#!/bin/bash
# One-off check that the interpreter and the package under test are usable offline.
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p evidence
exec "$VERIF_PY" -W ignore -c 'import numpy, scipy, evoMPS, evoMPS.tdvp_gen, evoMPS.tdvp_uniform, mon.core; print("setup ok", numpy.__version__, scipy.__version__)'
