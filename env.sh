# Environment shared by every check (sourced).  Mirrors /opt/vp/test.sh.
VERIF_HOME=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/opt/pypyvenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1
export PYTHONPATH=${EVOMPS_REPO:-/repo}:$VERIF_HOME
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell
export VERIF_PY=/opt/pypyvenv/bin/python
