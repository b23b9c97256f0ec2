import vlib,sys,json,collections,time
topic,mod=sys.argv[1],sys.argv[2]
tier=sys.argv[3] if len(sys.argv)>3 else 'quick'
seed=sys.argv[4] if len(sys.argv)>4 else '1'
e=vlib.build([topic],__import__("os").environ.get("SAN"))
t=time.time()
s,st=vlib.run_driver(e[topic],'/verif/work/'+topic,['--seed',seed,'--tier',tier]+(['--focus',__import__('os').environ['FOCUS']] if 'FOCUS' in __import__('os').environ else []),timeout=600)
print('driver',st,len(s),'sessions',sum(len(x['ev']) for x in s),'events %.1fs'%(time.time()-t), collections.Counter(ev['e'] for x in s for ev in x['ev']))
rej,r=vlib.validate(mod,s,'/verif/work/'+topic,timeout=1500)
print('tlc %.1fs'%r['wall'],r['generated'],r['distinct'],'rejections',len(rej))
by={x['name']:x for x in s}
seen=collections.Counter()
for x in rej:
    k=x['why']
    seen[k]+=1
    if seen[k]<=int(__import__("os").environ.get("SHOW","3")): print(x['session'],x['event'],x['why'],json.dumps(by[x['session']]['ev'][x['event']-1])[:700])
print(seen)
print(collections.Counter((x['session'].split('#')[0],x['why']) for x in rej).most_common(40))
