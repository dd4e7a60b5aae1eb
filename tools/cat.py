#!/usr/bin/env python3
import re,collections,sys
t=open(f'/verif/work/replay/{sys.argv[1]}.txt').read().split('\n== ')
n=int(sys.argv[2]) if len(sys.argv)>2 else 60
c=collections.OrderedDict()
for x in t:
    k,_,d=x.partition('\n'); k=k.replace('== ','')
    m=re.sub(r'\d+(\.\d+)?','#',d)[:150].replace('\n',' ')
    c.setdefault((re.split(r'[/: ]',k)[0],m[:70]),[]).append((k,d))
for (a,m),v in list(c.items())[:n]: print(len(v),'|',v[0][0][:100],'|',v[len(v)//2][0][:80],'|',v[0][1][:220].replace('\n',' '))
