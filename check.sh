#!/bin/bash
# check.sh <property> [quick|thorough]   or   check.sh --replay <file>
cd "$(dirname "$0")"
exec python3 dst/run.py "$@"
