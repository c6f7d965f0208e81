#!/bin/bash
# ./run.sh ID [quick|thorough]   or   ./run.sh ID replay evidence/replays/ID.json
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -B -m mc.main "$@"
