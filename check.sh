#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE]
exec python3 "$(dirname "$(readlink -f "$0")")/tools/check.py" "$@"
