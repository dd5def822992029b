#!/bin/bash
# mkseed.sh <id> <property> <deckfile> <define-line> <configs> <ranks> <run args> <needs> <what_it_breaks>
# takes the planted change from /repo's working tree diff (then reverts it)
set -e
top=/verif/seeded/$1; mkdir -p $top
git -C /repo diff > $top/patch.diff
git -C /repo checkout -- .
[ -s $top/patch.diff ] || { echo "no change in /repo"; exit 1; }
{ printf '%b\n' "$4"; cat /verif/tool/demo/$3; } > $top/demo.deck
{ echo '#!/bin/bash'; cat /verif/tool/demo/run.sh; for c in $5; do echo "run_deck $c demo.deck $6 $7 || exit 1"; done; } > $top/demo.sh
chmod +x $top/demo.sh
python3 - "$1" "$2" "$8" "$9" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P
echo made $1
