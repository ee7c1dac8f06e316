#!/bin/bash
# run.sh ID TIER [symex args]: a check without the wrapper, only what is slow or not ok
cd ${SYMEX_DIR:-/verif/symex} && cargo build --release --offline 2>&1 | grep -E "^error" -A9
id=$1; tier=$2; shift 2
/usr/bin/time -f "$id %es" timeout 900 ./target/release/symex check $id --tier $tier "$@" > /tmp/run.$id 2>&1
awk -v t=${SLOW:-3} '!/ ok$/ || $(NF>8?NF-5:1)+0>t' /tmp/run.$id | cut -c1-400 | tail -${LINES_MAX:-40}
