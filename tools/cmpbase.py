import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x and isinstance(x[k],list): return set(x[k])
    return set(x)
B=passed(b); T=passed(t); print(len(B),len(T)); m=sorted(B-T); print(len(m),m[:40])
