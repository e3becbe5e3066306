import json,sys
for f in sys.argv[1:]:
    r=json.load(open(f if '/' in f else '/verif/replays/%s.json'%f))
    print(f,r['kind'],r['what'],r['script']['cfg'],r['at'],'mode',r['script']['mode'])
    for i,e in enumerate(r['trace'][:r['at']+6]): print('  ','>>' if i+1==r['at'] else '  ',i+1,json.dumps(e))
    print(r['note'][:1500])
