#!/bin/bash
# usage: check.sh PROPERTY [--tier=quick|thorough]
export PYTHONHASHSEED=0
cd "$(dirname "$0")" && exec python3-vt vc/run.py "$@"
