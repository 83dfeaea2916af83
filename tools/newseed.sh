#!/bin/bash
# newseed.sh ID PROP "needs" "breaks": turns /repo's uncommitted change plus
# /tmp/demo_test.go into seeded/ID and restores /repo.
cd "$(dirname "$0")/.." || exit 2
id=$1 d=seeded/$1
mkdir -p $d
git -C /repo diff > $d/patch.diff
git -C /repo checkout -- .
cp /tmp/demo_test.go $d/demo_test.go
python3 tools/mkdemolib.py $d/demolib_test.go && gofmt -w $d/demolib_test.go $d/demo_test.go
cp tools/demo.sh.tmpl $d/demo.sh
python3 - "$@" > $d/meta.json <<'E'
import json,sys
print(json.dumps(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),indent=1))
E
CHECK=1 tools/seed.sh $id
