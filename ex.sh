#!/bin/bash
# dev helper: explore a stream, listing all violations: ex.sh CHECK STREAM [MULT]
cd /verif; VMON_ALL=1 VMON_STREAM=$2 VMON_MULT=${3:-1} ./bin/vmon check $1 > /tmp/ex.$1.$2 2>&1
echo "== $1/$2: $(grep -a -c "^$2/" /tmp/ex.$1.$2)"; grep -a -A4 "^$2/" /tmp/ex.$1.$2 | head -${N:-24}; tail -1 /tmp/ex.$1.$2
