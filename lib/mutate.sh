#!/bin/bash
# mutate.sh CHECK 'sed-expr' file [maxlines] -- developer aid: run one check against a scratch copy of /repo with one textual change
id=$1; expr=$2; f=$3
d=$(mktemp -d /tmp/mut.XXXXXX)
(cd /repo && git ls-files -z | tar --null -T - -cf - | tar -xf - -C $d)
ln -s /repo/lib/digitraffic-common/node_modules $d/lib/digitraffic-common/node_modules
sed -i -E "$expr" $d/$f
cmp -s $d/$f /repo/$f && echo "NO CHANGE $f"
VERIF_REPO=$d node /verif/run.mjs $id 2>&1 | grep -E "VIOLATION|^C[0-9]+|^  \[|HARNESS|Error" | cut -c1-260 | head -${4:-5}
rm -rf "$d"
