#!/bin/bash
# Builds the MIR dumper and warms the build cache of the crate.
cd "$(dirname "$0")/.."
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -c "from mirv import verify; print(verify.build())"
