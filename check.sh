#!/bin/bash
# check.sh ID [quick|thorough]
exec python3 "$(dirname "$(readlink -f "$0")")/engine/check.py" "$@"
