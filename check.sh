#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decide one property on /repo's current working tree
[ -n "$2" ] && export VERIF_TIER="$2"
cd "$(dirname "$0")" && exec python3 sa/main.py "$1"
