#!/bin/bash
# usage: seeds.sh [ID...]   runs the check of each seeded change against a copy of /repo with the change applied
here=$(dirname "$(realpath "$0")")
ids=${@:-$(ls "$here/../seeded")}
one() { p=$(python3 -c "import json,sys;print(json.load(open('$1/../seeded/$2/meta.json'))['property'])"); echo "$2 $(LINES_SHOWN=2 COLS=150 $1/mut.sh $1/../seeded/$2/patch.diff $p | tr '\n' ' ')"; }
export -f one
echo $ids | tr ' ' '\n' | xargs -P ${J:-3} -I{} bash -c "one $here {}"
