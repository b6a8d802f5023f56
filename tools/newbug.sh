#!/bin/bash
# newbug.sh ID PROPERTY cpp|py "needs" "what it breaks"   -- takes the diff of /tmp/rw; demo.cpp/demo.py is read from stdin
set -e
S=/verif/seeded/$1; mkdir -p $S; L=/verif/tools/demolib
git -C /tmp/rw diff > $S/patch.diff; test -s $S/patch.diff; git -C /tmp/rw checkout -q .
cat > $S/demo.$3
if [ $3 = cpp ]; then cp $L/demo_cpp.sh $S/demo.sh; cp /verif/cpp/world.h $S/world.h; else cp $L/demo_py.sh $S/demo.sh; cp $L/vp.py $S/vp.py; fi
python3 - "$1" "$2" "$4" "$5" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
