"""Compare mc/refolson.py with the system's compiled zones at every change of every zone, 1900-2037."""
import datetime
import os
import sys
import zoneinfo
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mc')
sys.path.insert(0, H)
import refolson
import tzi
Z=refolson.compile(tzi.conv(os.path.join(H, 'data', 'tzdata.zi')),hi=2038)
bad=0
for n,c in sorted(Z.items()):
    try: z=zoneinfo.ZoneInfo(n)
    except Exception: print('nozone',n); continue
    if not c.sane: print('insane',n)
    for t,*_ in c.changes:
        if t< -2208988800+0: continue
        if t>2140000000: continue
        for d in (-1,0):
            x=datetime.datetime.fromtimestamp(t+d,z).utcoffset().total_seconds()
            if x!=c.at(t+d)[0]:
                bad+=1
                if bad<20: print(n,t+d,datetime.datetime.fromtimestamp(t+d,datetime.timezone.utc),x,c.at(t+d))
                break
print(len(Z),bad)
