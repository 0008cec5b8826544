import json,sys,os
pid,prop,needs,breaks=sys.argv[1:5]
json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded',pid,'meta.json'),'w'),indent=1)
