import re,sys,json
FILES={ # file -> checks in order
'event.h':['C01','C02','C16'],'latch.h':['C04','C16'],'mutex.h':['C03'],'channel.h':['C05','C16'],'queue.h':['C06','C16'],
'promise.h':['C07','C08'],'ref.h':['C09','C10'],'signal.h':['C11','C12'],'thread_pool.h':['C13'],'timer.h':['C14'],
'simple_dispatcher.h':['C15','C16'],'dispatcher.h':['C15','C16'],'defer.h':['C16'],'task.h':['C17','C26'],'sync_wait.h':['C20','C26'],
'fire_and_forget.h':['C18','C26'],'policy.h':['C18'],'launch.h':['C18','C19','C26'],'generator.h':['C21','C26'],'async_generator.h':['C21','C26'],
'fiber.h':['C22'],'stop_token.h':['C23'],'threadsafe_queue.h':['C24'],'ptr_tag.h':['C25'],'scope_guard.h':['C27'],'async_main.h':['C20'],
'detail/promise_allocator_base.h':['C26'],'detail/parameter_pack.h':['C26','C25']}
def muts(f):
    L=open('/repo/include/asyncpp/'+f).read().split('\n')
    out=[]
    blk=False
    for i,l in enumerate(L):
        s=l.strip()
        if s.startswith('/*'): blk=True
        if blk:
            if '*/' in s: blk=False
            continue
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('*') or 'static_assert' in s or s.startswith('assert(') or s.startswith('using ') or s.startswith('template') or s.startswith('"'): continue
        code=l.split('//')[0]
        def add(kind,new):
            if new!=l: out.append((f,i,kind,l,new))
        # delete statement
        if re.match(r'^\s*[\w:\*\(\.\->~&]+.*;\s*$',code) and not re.match(r'^\s*(return\b|break|continue|friend|virtual|static|inline|const|constexpr|explicit|struct|class|enum|~?\w+\([^)]*\) *(noexcept)? *= *(default|delete)|.*= *(default|delete|0);)',code) :
            if not re.match(r'^\s*(if|for|while|else)\b',code): add('del',re.match(r'^\s*',l)[0]+';')
            else: add('delc',re.match(r'^\s*',l)[0]+';') if not s.startswith('else') else None
        m=re.match(r'^(\s*(?:\} )?(?:else )?if (?:constexpr )?)\((.*)\)(\s*(?:\{|[^{]*;|.*\}))\s*$',code)
        if m and 'constexpr' not in m[1] and ';' not in m[2]:
            add('iftrue',m[1]+'((void)bool('+m[2]+'), true)'+m[3]) ; add('iffalse',m[1]+'((void)bool('+m[2]+'), false)'+m[3])
        for m in re.finditer(r'memory_order(?:_|::)(acquire|release|acq_rel|seq_cst|consume)',code):
            add('relax',l[:m.start(1)]+'relaxed'+l[m.end(1):])
        for a,b in [('==','!='),('!=','=='),(' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > '),(' && ',' || '),(' || ',' && '),('true','false'),('false','true'),('++','--'),('--','++'),(' + ',' - '),(' - ',' + ')]:
            for m in re.finditer(re.escape(a),code):
                if 'operator' in code[:m.start()] [-12:] : continue
                if a in('true','false') and re.search(r'\w$',code[:m.start()]): continue
                if 'noexcept' in code and a in ('true','false'): continue
                add('op'+a.strip(),l[:m.start()]+b+l[m.end():])
        for m in re.finditer(r'(?<![\w])!(?!=)',code): add('not',l[:m.start()]+l[m.end():])
        for m in re.finditer(r'std::move\(([^()]*)\)',code): add('nomove',l[:m.start()]+m[1]+l[m.end():])
        for m in re.finditer(r'std::exchange\(([^(),]*), [^()]*\)',code): add('noexch',l[:m.start()]+m[1]+l[m.end():])
        for m in re.finditer(r'return ([^;{}]+);',code):
            if m[1] in('true','false'): continue
            if '{' not in code: pass
        for m in re.finditer(r'(\+ 1|- 1)\b',code): add('off1',l[:m.start()]+l[m.end():])
        if 'compare_exchange_weak' in code: pass
        if 'compare_exchange_strong' in code: pass
        for m in re.finditer(r'\bwhile \(',code): add('while2if',l[:m.start()]+'if ('+l[m.end():]) if code.rstrip().endswith('{') else None
        m=re.match(r'^(\s*)(std::(?:unique|scoped|shared)_lock|std::lock_guard)(<[^>]*>)? (\w+)[\{\(]([^,;]*)[\}\)];',code)
        if m: pass
    return out
if __name__=='__main__':
    n=0; r=[]
    for f in FILES:
        m=muts(f); print(f,len(m)); n+=len(m); r+=m
    print(n); json.dump(r,open('/tmp/mut/all.json','w'))
