#!/bin/bash
# pseed.sh verify|catch JOBS ID...   several at once
m=$1; j=$2; shift 2
printf '%s\n' "$@" | xargs -P$j -I{} python3 /verif/tools/seed.py $m {}
