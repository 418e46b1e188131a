#!/bin/bash
# ./check.sh ID [--replay FILE | --only TEXT]
# Rebuilds clawpack.pyclaw's extensions from /repo's working tree (into
# /opt/clawpack/build, as the project's own build does) and runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PIP_NO_INDEX=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
# memory that was never set holds huge values instead of what happened to be there
export MALLOC_PERTURB_=128
unset PYTHONPATH
cd "$here" || exit 2
if [ -z "$VERIF_NOBUILD" ]; then
    blog=$(mktemp)
    if ! bash /opt/vp/build.sh ext >"$blog" 2>&1; then
        tail -30 "$blog"; rm -f "$blog"
        echo "the extensions do not build"; exit 2
    fi
    rm -f "$blog"
fi
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
/opt/venv/bin/python -W ignore "$here/mon/run.py" "$@"
