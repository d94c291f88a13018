bash /opt/vp/test.sh /tmp/w/OUT.json >/tmp/w/t.log 2>&1; python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/OUT.json'))
print(len(o['passed']),o['failed'], list(set(b['stable'])-set(o['passed']))[:5])"
