#!/bin/bash
# usage: run.sh ID [--replay FILE]      (environment: VERIF_SEED, VERIF_TIER)
# Runs one check against the code in /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 PATH=/usr/local/bin:/usr/bin:/bin TZ=UTC
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
# Nothing is ever written next to the sources, and nothing stale is read.
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONPYCACHEPREFIX=/opt/vp/no-pycache
# A different hash order per seed, but reproducible.
case $VERIF_SEED in *[!0-9]*|"") hash=0;; *) hash=$((10#$VERIF_SEED % 4294967295));; esac
export PYTHONHASHSEED=$hash
# The tools' console output depends on these.
unset FORCE_COLOR NO_COLOR COLUMNS LINES TERM PYTHONPATH TTY_COMPATIBLE TTY_INTERACTIVE CLICOLOR CLICOLOR_FORCE
export TERM=dumb
export HYPOTHESIS_STORAGE_DIRECTORY=$here/out/hypothesis
py=/opt/venv/bin/python
[ -x "$py" ] || py=/opt/veriftools/pyvenv/bin/python
exec "$py" "$here/pbt/main.py" "$@"
