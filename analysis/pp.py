"""pretty printer for the exported program (debugging aid): pp.py dump.json <substring of path>"""
import json, sys
class PP:
    def __init__(s, d): s.d=d
    def ty(s,t): return s.d['types'][t]['s']
    def place(s,p):
        o='_%d'%p[0]
        for e in p[1:]:
            if e[0]=='*': o='(*%s)'%o
            elif e[0]=='f': o+='.%d'%e[1]
            elif e[0]=='v': o='(%s as v%d)'%(o,e[1])
            elif e[0]=='i': o+='[_%d]'%e[1]
            else: o+='[%s]'%e
        return o
    def op(s,o):
        if o[0] in 'cm': return ('move ' if o[0]=='m' else '')+s.place(o[1])
        if o[0]=='k':
            k=o[1]
            return 'const %s%s:%s'%(k.get('n',''),json.dumps(k['v']),s.ty(k['t'])[:60])
        return str(o)
    def rv(s,r):
        k=r[0]
        if k=='use': return s.op(r[1])
        if k in('ref','raw'): return '&%s%s%s'%('raw ' if k=='raw' else '','mut ' if r[1] else '',s.place(r[2]))
        if k=='cast': return '%s as %s (%s)'%(s.op(r[2]),s.ty(r[3])[:60],r[1])
        if k=='bin': return '%s(%s, %s)'%(r[1],s.op(r[2]),s.op(r[3]))
        if k=='un': return '%s(%s)'%(r[1],s.op(r[2]))
        if k=='discr': return 'discr(%s)'%s.place(r[1])
        if k=='agg': return '%s %s v%d {%s}'%(r[1],s.ty(r[2])[:70],r[3],', '.join(map(s.op,r[4])))
        return str(r)
    def body(s,i):
        b=i['body']; print('=== #%d %s [%s] argc=%d %s:%d'%(i['id'],i['path'],i['kind'],b['argc'],b['file'],b['line']))
        for n,(t,nm) in enumerate(b['locals']): print('  let _%d%s: %s'%(n,' /*%s*/'%nm if nm else '',s.ty(t)[:110]))
        for n,bl in enumerate(b['blocks']):
            print(' bb%d%s:'%(n,' (cleanup)' if bl['cl'] else ''))
            for st in bl['s']:
                if st[0]=='=': print('    %s = %s   // %d'%(s.place(st[1]),s.rv(st[2]),st[3]))
                elif st[0] in('sl','dead'): print('    %s(_%d)'%(st[0],st[1]))
                else: print('    ',st)
            t=bl['t']
            if t[0]=='call':
                c=t[1]
                nm='#%s %s'%(c.get('inst'),c.get('path',c.get('ptr')))
                print('    %s = %s(%s) -> %s uw %s // %d'%(s.place(t[4]),nm,', '.join(map(s.op,t[2])),t[6],t[7],t[8]))
            elif t[0]=='switch': print('    switch %s %s else %d'%(s.op(t[1]),t[2],t[3]))
            elif t[0]=='drop': print('    drop %s: %s -> %s uw %s'%(s.place(t[1]),s.ty(t[2])[:60],t[3],t[4]))
            else: print('    ',t)
if __name__=='__main__':
    d=json.load(open(sys.argv[1])); pp=PP(d)
    for i in d['insts']:
        if i['body'] and (i['path'].endswith(sys.argv[2]) or ('#%d'%i['id'])==sys.argv[2]): pp.body(i); break
