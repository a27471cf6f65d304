import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); fn=d.pop('functions',{}); s=d.pop('samples',[])
    print({k:v for k,v in d.items()}); print('  samples',s[:2])
    print('  repo fns',[k for k,v in fn.items() if '/repo' in v or 'bitcoin' in v][:60])
