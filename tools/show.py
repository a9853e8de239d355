#!/usr/bin/env python3
"""Pretty-prints one verify case: show.py FILE INDEX(1-based)"""
import json,sys
def nm(n): return ''.join((bytes(l).decode('latin1') if len(l)<40 else '<%d>'%len(l))+'.' for l in n) or '.'
T={1:'A',2:'NS',5:'CNAME',16:'TXT',28:'AAAA',39:'DNAME',43:'DS',46:'RRSIG',47:'NSEC',48:'DNSKEY',50:'NSEC3',52:'TLSA'}
def show(c):
    N=[nm(x) for x in c['names']]; g=lambda i:N[i-1] if i>0 else '-'
    for k,(o,t,r) in enumerate(c['rrs'],1):
        d=dict(c['rd'][r-1]); kk=d.pop('k')
        if kk=='sig': d['kn']=g(d['kn']); d['on']=g(d['on']); d['ct']=T.get(d['ct'],d['ct']); d['inc']=d['inc'][0]*65536+d['inc'][1]; d['exp']=d['exp'][0]*65536+d['exp'][1]
        if kk=='ds': d['on']=g(d['on'])
        if kk=='nsec': d['next']=g(d['next'])
        if kk=='n': d['tn']=g(d['tn'])
        if 'x' in d and len(d['x'])>24: d['x']='%d bytes'%len(d['x'])
        print(k,g(o),T.get(t,t),'rd%d'%r,kk,d)
    for h in c.get('h',[]): print('hash',g(h['n']),h['it'],h['salt'],h['h'])
    print(c.get('out'))
if __name__=='__main__': show(json.loads(open(sys.argv[1]).read().splitlines()[int(sys.argv[2])-1]))
