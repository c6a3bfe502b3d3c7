#!/usr/bin/env python3
# survey.py EXE SECONDS PROP... : all violations of a search, grouped (development aid)
import json,subprocess,sys,re,collections,os
exe,secs=sys.argv[1],sys.argv[2]
seed=os.environ.get('SEED','1')
pre=['node'] if exe.endswith('.js') else []
os.makedirs('/tmp/sv',exist_ok=True)
for prop in sys.argv[3:]:
    ps=[]
    for w in range(8):
        f='/tmp/sv/%s-%d.json'%(prop,w)
        ps.append((f,subprocess.Popen(pre+[exe,'run','--prop',prop,'--seed',seed,'--start',str(w),'--step','8','--time',secs,'--out',f,'--max-violations','1000'],stderr=subprocess.DEVNULL)))
    runs=nt=0; g=collections.OrderedDict(); pr={}; ref=0
    for f,p in ps:
        p.wait()
        try: d=json.load(open(f,errors='surrogateescape'))
        except Exception as e: print(f,e); continue
        runs+=d['runs']; nt+=d['nontrivial']; ref+=d.get('ref_runs',0)
        for k,v in d['probes'].items(): pr[k]=pr.get(k,0)+v
        for v in d['violations']:
            det=re.sub(r'0x[0-9a-f]+','#',re.sub(r'\d+','#',v['detail']))[:100]
            g.setdefault((v['cls'],det),[]).append(v)
    print('== %s runs %d nontrivial %d refs %d violations %d'%(prop,runs,nt,ref,sum(map(len,g.values()))))
    print('   probes',pr)
    for i,((c,det),vs) in enumerate(sorted(g.items(),key=lambda x:-len(x[1]))[:12]):
        vs.sort(key=lambda v:len(v['plan']))
        fn='/tmp/sv/%s.%d.plan'%(prop,i)
        open(fn,'w',errors='surrogateescape').write(vs[0]['plan'])
        print('  %d x [%s] %s -> %s'%(len(vs),c,det.encode(errors='replace').decode(),fn))
