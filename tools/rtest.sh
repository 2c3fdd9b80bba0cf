#!/bin/bash
# build /repo and run the stable tests; print how many stable tests are missing
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=set(b['stable'])-set(o['passed']);print('missing',len(m),sorted(m)[:5])"
