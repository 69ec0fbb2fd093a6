import json,sys
p='/verif/known_findings.json'
k=json.load(open(p))
def fixed(prop,commit,what): k.append({"status":"fixed","property":prop,"key":"","commit":commit,"what":what,"line":f"fixed: property={prop} {commit} {what}"})
def known(prop,key,what): k.append({"status":"known","property":prop,"key":key,"what":what})
exec(sys.stdin.read())
json.dump(k,open(p,'w'),indent=1); open(p,'a').write('\n')
