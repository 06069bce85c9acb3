#!/bin/bash
# seed_check.py in N parallel lanes: seed_check_all.sh N [ID...]
cd "$(dirname "$0")/.."; n=$1; shift; ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
printf '%s\n' "${ids[@]}" | xargs -P "$n" -n 1 python3 tools/seed_check.py
