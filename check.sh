#!/bin/bash
# usage: check.sh ID [quick|thorough] [--replay FILE]
for d in /opt/vp/env.sh; do [ -f "$d" ] && . "$d"; done
exec python3 "$(dirname "$(readlink -f "$0")")/check.py" "$@"
