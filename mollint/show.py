"""Print functions of a dump (debugging aid)."""
import json,sys
def main():
    d=json.load(open(sys.argv[1])); T=d['types']
    def pl(p):
        s='_%d'%p[0]
        for e in p[1]:
            s = ('(*%s)'%s) if e=='*' else s+ '.'+''.join(map(str,e[:2]))
        return s
    def op(o):
        if o[0] in 'cm': return pl(o[1])
        return 'const '+json.dumps(o[2])+':'+T[o[1]]['s']
    def rv(r):
        k=r[0]
        if k=='use': return op(r[1])
        if k=='ref': return ('&mut ' if r[1] else '&')+pl(r[2])
        if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
        if k=='un': return '%s(%s)'%(r[1],op(r[2]))
        if k=='cast': return '%s as %s [%s]'%(op(r[2]),T[r[3]]['s'],r[1])
        if k=='discr': return 'discr '+pl(r[1])
        if k=='agg': return '%s%s(%s)'%(T[r[3]]['s'],r[1],', '.join(map(op,r[2])))
        return str(r)
    for f in d['fns']:
        if sys.argv[2] not in f['disp'] and sys.argv[2]!=f['key']: continue
        print('FN',f['disp'],f['key'],f['has_body'], f.get('span'))
        if not f['has_body']: continue
        for i,l in enumerate(f['locals']): print('  _%d: %s %s'%(i,T[l['ty']]['s'],l.get('name','')))
        for i,b in enumerate(f['blocks']):
            if b['cleanup']: continue
            print(' bb%d:'%i)
            for s in b['s']: print('    ',pl(s[0]),'=',rv(s[1]))
            t=b['t']
            if t[0]=='call': print('    ',pl(t[3]),'= CALL',t[1].get('rpath') or t[1]['path'],'[',t[1].get('rself'),']',t[1].get('rkind'),'(',', '.join(map(op,t[2])),') ->',t[4])
            elif t[0]=='switch': print('     switch',op(t[1]),t[2:])
            elif t[0]=='assert': print('     assert',op(t[1]),t[2:4],[op(o) for o in t[4]],'->',t[5])
            else: print('    ',t)
if __name__=='__main__': main()
