#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")/.."
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m mirv.verify "$@"
