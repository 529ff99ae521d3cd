#!/bin/bash
# run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] : runs one check against /repo's working tree.
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export PATH=/opt/pvenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export VERIF_HOME="$HERE"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$HERE:$VERIF_REPO/src"
cd "$HERE"
exec /opt/pvenv/bin/python -m harness.main "$@"
