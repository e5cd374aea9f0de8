import json,subprocess,sys
b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('passed') or b
out='/tmp/stable_out.json'
subprocess.run(['bash','/opt/vp/build.sh'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
subprocess.run(['bash','/opt/vp/test.sh',out],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
o=json.load(open(out))
miss=[t for t in st if t not in set(o['passed'])]
print('passed',len(o['passed']),'of',len(st),'missing',miss[:10])
