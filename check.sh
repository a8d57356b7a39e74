#!/bin/bash
# usage: bash check.sh C01 [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m vh.run "$@"
