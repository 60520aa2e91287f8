#!/bin/bash
# development helper: rebuild, run the suite, compare with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/o.json'))['passed'])
m=sorted(b-o); print('missing',len(m),m[:8])"
