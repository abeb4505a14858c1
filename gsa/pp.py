"""Compact pretty printer of the dumped THIR (debug aid and report excerpts)."""
import sys, json

def ty(t):
    if t is None: return "'_"
    k = t['k']
    if k in ('bool','char','str','never'): return k
    if k in ('int','float'): return t['name']
    if k == 'adt':
        a=[ty(x) for x in t['args'] if x is not None]
        return t['path'].split('::')[-1] + ('<%s>'%','.join(a) if a else '')
    if k == 'array': return '[%s;%s]'%(ty(t['ty']), t['len'].get('v'))
    if k == 'slice': return '[%s]'%ty(t['ty'])
    if k == 'ref': return '&%s%s'%('mut ' if t['mut'] else '', ty(t['ty']))
    if k == 'ptr': return '*%s'%ty(t['ty'])
    if k == 'tuple': return '(%s)'%','.join(ty(x) for x in t['tys'])
    if k == 'param': return t['name']
    if k in ('alias','opaque'): return '<%s>::%s'%(','.join(ty(x) for x in t['args'] if x), (t['path'] or '?').split('::')[-1])
    if k == 'fndef': return 'fn:'+t['path']
    if k == 'closure': return 'closure'+t['did']
    if k == 'const': return str(t.get('v'))
    if k == 'cparam': return t['name']
    return t.get('s',k)

def pat(p):
    k=p['p']
    if k=='wild': return '_'
    if k=='bind': return {'val':'','ref':'ref ','refmut':'ref mut '}[p['by']]+p['name']+'#'+p['var']+('@'+pat(p['sub']) if p['sub'] else '')
    if k=='variant': return '%s(%s)'%(p['name'],','.join('%d:%s'%(i,pat(s)) for i,s in p['subs']))
    if k=='leaf': return '(%s)'%','.join('%d:%s'%(i,pat(s)) for i,s in p['subs'])
    if k=='deref': return '&'+pat(p['sub'])
    if k=='const': return str(p['val'].get('bits',p['val'].get('s')))
    if k=='or': return '|'.join(pat(s) for s in p['pats'])
    return k+str({x:y for x,y in p.items() if x not in('p','ty')})

def blk(b,ind):
    s='{\n'
    for st in b['stmts']:
        if st['s']=='let':
            s+=ind+'  let '+pat(st['pat'])+(' = '+ex(st['init'],ind+'  ') if st['init'] else '')+(' else '+blk(st['else'],ind+'  ') if st['else'] else '')+';\n'
        else: s+=ind+'  '+ex(st['e'],ind+'  ')+';\n'
    if b['expr']: s+=ind+'  '+ex(b['expr'],ind+'  ')+'\n'
    return s+ind+'}'

def ex(e,ind=''):
    k=e['e']
    if k=='scope': return ex(e['v'],ind)
    if k=='if': return 'if %s %s else %s'%(ex(e['c'],ind),ex(e['t'],ind),ex(e['f'],ind) if e['f'] else '()')
    if k=='call':
        c=e['callee']
        if c:
            r=c.get('res')
            nm=c['path']+'<'+','.join(ty(a) for a in c['args'] if a)+'>'
            if r and r['did']!=c['did']: nm+='=>'+r['path']+'<'+','.join(ty(a) for a in r['args'] if a)+'>'
            if c['local'] or (r and r['local']): nm='LOCAL '+nm
        else: nm='('+ex(e['fun'],ind)+')'
        return nm+'('+', '.join(ex(a,ind) for a in e['args'])+')'
    if k=='deref': return '*'+ex(e['v'],ind)
    if k in('bin','logic'): return '(%s %s %s)'%(ex(e['l'],ind),e['op'],ex(e['r'],ind))
    if k=='un': return e['op']+' '+ex(e['v'],ind)
    if k in ('use','cast'): return k+':'+ex(e['v'],ind)
    if k=='coerce': return 'co:'+ex(e['v'],ind)
    if k=='block': return blk(e['b'],ind)
    if k=='loop': return 'loop '+ex(e.get('v') or e['body'],ind)
    if k=='match': return 'match '+ex(e['v'],ind)+' {'+''.join('\n'+ind+'  '+pat(a['pat'])+(' if '+ex(a['guard'],ind) if a['guard'] else '')+' => '+ex(a['body'],ind+'  ') for a in e['arms'])+'\n'+ind+'}'
    if k=='assign': return '%s = %s'%(ex(e['l'],ind),ex(e['r'],ind))
    if k=='assignop': return '%s %s= %s'%(ex(e['l'],ind),e['op'],ex(e['r'],ind))
    if k=='field': return ex(e['v'],ind)+'.'+str(e['idx'])
    if k=='index': return ex(e['v'],ind)+'['+ex(e['i'],ind)+']'
    if k=='var': return ('^' if e.get('up') else '')+'$'+e['var']
    if k=='ref': return '&'+('mut ' if e['mut'] else '')+ex(e['v'],ind)
    if k=='lit': return ('-' if e['neg'] else '')+e['v']+':'+e['lk']
    if k=='zst': return 'ZST<'+ty(e['ty'])+'>'
    if k=='adt': return e['path'].split('::')[-1]+'::'+e['vname']+'{'+', '.join('%d:%s'%(i,ex(x,ind)) for i,x in e['fields'])+'}'
    if k in('tuple','array'): return k+'('+', '.join(ex(x,ind) for x in e['vs'])+')'
    if k=='break': return 'break'+e['label']+(' '+ex(e['v'],ind) if e['v'] else '')
    if k=='continue': return 'continue'+e['label']
    if k=='return': return 'return '+(ex(e['v'],ind) if e['v'] else '')
    if k=='closure': return 'CLOSURE '+e['did']
    if k=='let': return 'let %s = %s'%(pat(e['pat']),ex(e['v'],ind))
    return k+str({x:(y if not isinstance(y,dict) else ex(y,ind) if 'e' in y else '..') for x,y in e.items() if x not in('e','ty','at')})

if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for f in d['fns']:
        if sys.argv[2] in f['path']:
            print('FN',f['did'],f['path'],f['at'],[ (pat(p['pat']) if p['pat'] else None, ty(p['ty'])) for p in f['params']],'->',ty(f['ret']))
            print(ex(f['body']))
