import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p)); j=d["coverage"]["jobs"]
    print(p,d["wall_s"],[(k,v["wall_s"],v["paths"]) for k,v in sorted(j.items(),key=lambda x:-x[1]["wall_s"])[:6]])
