#!/bin/bash
# tools/mc.sh MODULE [Const=val ...]: model check one module, short output
cd "$(dirname "$0")/../spec"
m=$1; shift
cp $m.cfg /tmp/mc_$$.cfg
for a in "$@"; do sed -i "s|^\( *${a%%=*} = \).*|\1${a#*=}|" /tmp/mc_$$.cfg; done
( time timeout ${TMO:-120} tlc -workers 4 -deadlock -metadir /tmp/tlcm_$$ -config /tmp/mc_$$.cfg $m.tla ) > /tmp/mc_$$.out 2>&1
echo "edges $(grep -c '^"EDGE' /tmp/mc_$$.out)"
grep -v '^"EDGE' /tmp/mc_$$.out | grep -E "distinct states found|rror|real|Invariant|violated|line [0-9]+" -A3 | cut -c1-400 | head -${LINES_MAX:-40}
rm -rf /tmp/mc_$$.cfg /tmp/mc_$$.out /tmp/tlcm_$$
