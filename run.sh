#!/bin/bash
# usage: run.sh <PROPERTY-ID> [options]; see check.py --help
cd "$(dirname "$0")" || exit 3
for py in "$VERIF_PYTHON" /opt/venv/bin/python python3; do
    [ -n "$py" ] || continue
    if "$py" -B -c 'import loguru, dns, hier_config' 2>/dev/null; then
        exec env PYTHONDONTWRITEBYTECODE=1 "$py" -B check.py "$@"
    fi
done
echo "HARNESS-ERROR: no python interpreter with the repository's dependencies" >&2
exit 3
