#!/bin/bash
# runs every check of a tier (development only): all.sh quick|thorough [ID...]
cd "$(dirname "$0")/.." || exit 2
t=$1; shift
for i in ${@:-$(seq -f 'C%02g' 1 26)}; do s=$SECONDS; timeout 1500 bin/check $i $t >/tmp/all.$i.$t 2>&1; echo "$i rc=$? $((SECONDS-s))s $(tail -1 /tmp/all.$i.$t | cut -c1-150)"; done
