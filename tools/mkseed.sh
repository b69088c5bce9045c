#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks" ; reads: /tmp/seed-edit.py executed in tree; demo.py from stdin
ID=$1; V=/verif; python3 $V/tools/seed.py --edit $ID
(cd /tmp/seed-$ID && python3 /tmp/seed-edit.py) || exit 1
python3 $V/tools/seed.py --save $ID
cp $V/tools/demolib.py $V/seeded/$ID/
cat > $V/seeded/$ID/demo.py
printf '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n' > $V/seeded/$ID/demo.sh
python3 - "$@" <<'E2'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
E2
