bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 -c "
import json;d=json.load(open('/tmp/t.json'));print({k:len(v) for k,v in d.items()})"
