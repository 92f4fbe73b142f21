import json,sys
# addfix.py PROP COMMIT WHAT
f='/verif/known_findings.json'; d=json.load(open(f))
p,c,w=sys.argv[1:4]
if not any(e.get('commit')==c for e in d): d.append({"property":p,"status":"fixed","commit":c,"what":w,"line":"fixed: property=%s %s %s"%(p,c,w)})
json.dump(d,open(f,'w'),indent=1)
