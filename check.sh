#!/bin/bash
# check.sh <property> [quick|thorough]
exec python3-vt "$(dirname "$(readlink -f "$0")")/engine/check.py" "$@"
