#!/bin/sh
# run.sh <property> <seed> <first iteration> <count>: build the harness against /repo and run it
R=${FB_REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export FB_DICT="$(python3 "$H/dict.py" "$R")"
F="-std=c++14 -O1 -g -fsanitize=address -I$R -I/usr/include/eigen3"
ls $R/fbstab/*.cc $R/fbstab/components/*.cc $H/*.cc | xargs -P 8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$D"'/$(basename {}).o || exit 255' && g++ $F $D/*.o -o $D/h && $D/h "$@"
