#!/bin/bash
# Nothing to compile: the harness is Python run by the repository's own
# interpreter. Fails early when that interpreter or the tools are missing.
set -e
cd "$(dirname "$0")"
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
export PATH=/opt/pvenv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
PYTHONPATH=/verif:/repo/src /opt/pvenv/bin/python - <<'P'
import disseminate, lxml, regex
assert disseminate.__file__.startswith('/repo/src/'), disseminate.__file__
P
mkdir -p evidence out
echo "setup ok"
