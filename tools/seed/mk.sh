#!/bin/bash
# mk.sh ID PROP FILE 'perl expression' 'needs' 'breaks': patch and meta of seeded/ID (demo.c written separately)
id=$1 d=/verif/seeded/$1; mkdir -p $d; w=/tmp/seedmk.$$
mkdir $w; cd /repo && git archive HEAD | tar x -C $w; cd $w; git init -q . ; git add -A; git -c user.name=x -c user.email=x commit -qm x
perl -0pi -e "$4" $3; git diff > $d/patch.diff; [ -s $d/patch.diff ] || echo "EMPTY PATCH"
cp /verif/tools/seed/demo.sh $d/; cp /verif/tools/demo/nsim.h $d/
python3 - "$2" "$5" "$6" > $d/meta.json <<P
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
cd /; rm -rf $w
