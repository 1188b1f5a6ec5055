#!/bin/bash
# Nothing is compiled: the checks import /repo/src directly. Verify that the interpreter and imports work.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=/verif:/repo/src PYTHONWARNINGS=ignore
mkdir -p evidence replays
/opt/venv/bin/python -c "
import megatron.energon, harness.core
assert megatron.energon.__file__.startswith('/repo/src/'), megatron.energon.__file__
print('ok', megatron.energon.__file__)"
