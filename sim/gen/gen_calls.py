# Generates calls_sigs.inc: host functions of a fixed set of signatures, callers for script functions of the same signatures. (Run by hand; the result is committed.)
import random
R=random.Random(20261119)
prims={'c':('char','char'),'s':('short','short'),'i':('int','int'),'l':('long long','long'),'f':('float','float'),'d':('double','double'),'b':('bool','bool')}
classes={ # members: (type letter, array count)
'KI':'i','KF':'f','KII':'ii','KFF':'ff','KIF':'if','KL':'l','KD':'d','KDD':'dd','KLD':'ld','KDL':'dl','KLL':'ll','KIII':'iii','KFFF':'fff','KFFI':'ffi','KFFFF':'ffff','KIFIF':'ifif','KDFF':'dff','KFFL':'ffl','KC':'c','KCC':'cc','KCSI':'csi','KSS':'ss','KID':'id','KDDD':'ddd','KIL':'il','KF6':'ffffff','KMIX':'csilfdb','KDI':'di','KLF':'lf'}
refs=['A','C','P','R','G','U','T'] # int[], char[], int ref, auto ref, int ref(int), auto[], typeid
def pick():
    x=R.random()
    if x<0.5: return R.choice(list(prims))
    if x<0.8: return R.choice(list(classes))
    return R.choice(refs)
sigs=[]
for k in range(128):
    n=R.choice([0,1,1,2,2,3,3,4,5,6,7,8,10,12]) if k>=44 else None
    if k<7: a=[list(prims)[k]]; r=list(prims)[k]
    elif k<14: a=[refs[k-7]]; r=refs[k-7]
    elif k<14+len(classes): a=[list(classes)[k-14]]; r=list(classes)[k-14]
    elif k==44: a=[]; r='v'
    elif k==45: a=['KBIG','i']; r='KBIG'
    elif k==43: a=list('csilfdb')*2; r='d'
    else:
        a=[pick() for _ in range(n)]
        if R.random()<0.25: # fill registers of one kind first
            a=[R.choice('dfdf' if R.random()<0.5 else 'ilcs') for _ in range(R.randint(5,9))]+[pick() for _ in range(R.randint(1,3))]
        r=R.choice(['v','i','i','d','l','f']+[pick()]*4)
    a=a[:15]; sigs.append((r,a))
classes['KBIG']='i'*140
# classes with a member of a class type (the script nests, a C structure with nested members has the same layout): members from this index on are in the inner class
nested={'KNFI':('fi',1),'KNFIF':('fif',1),'KNDFI':('dfi',1),'KNFFI':('ffi',1),'KNIF':('if',1),'KNFF':('ff',1),'KNFFF':('fff',1),'KNFFFI':('fffi',2),'KNDD':('dd',1),'KNCII':('cii',1),'KNFCCS':('fccs',1)}
nests={c:0 for c in classes}
for c,(m,k) in nested.items(): classes[c]=m; nests[c]=k
# classes with an array (-1: all members)
arrays={'KAFF':('ff',-1),'KAF3':('fff',-1),'KADD':('dd',-1),'KAIII':('iii',-1),'KIAF':('if',1),'KFAI':('fi',1),'KIAFF':('iff',1),'KFAII':('fii',1),'KDAF':('dff',1),'KAF6':('ffffff',-1)}
narr={}
for c,(m,k) in arrays.items(): classes[c]=m; nests[c]=-1 if k<0 else 100+k
nested.update(arrays)
for c in nested: sigs.append((c,[c])); 
for k in range(40):
    a=[R.choice(list(nested)+list('idf')) for _ in range(R.randint(1,7))]; r=R.choice(list(nested)+['v','i','d']); sigs.append((r,a))
cpp={'v':'void','A':'NULLCArray','C':'NULLCArray','P':'int*','R':'NULLCRef','G':'NULLCFuncPtr','U':'NULLCAutoArray','T':'unsigned'}
for p in prims: cpp[p]=prims[p][0]
for c in classes: cpp[c]=c
o=['// generated by gen/gen_calls.py']
for c,m in classes.items(): o.append('struct %s { %s };'%(c,' '.join('%s m%d;'%(prims[t][0],i) for i,t in enumerate(m))))

o.append('static const ClassDef classDefs[] = { %s };'%', '.join('{ "%s", "%s", %d }'%(c,m,nests[c]) for c,m in classes.items()))
for c,m in classes.items():
    o.append('static void put(Flat &o, const %s &v){ %s }'%(c,' '.join('put(o, v.m%d);'%i for i in range(len(m)))))
    o.append('static void get(In &o, %s &v){ memset((void*)&v, 0, sizeof(v)); %s }'%(c,' '.join('get(o, v.m%d);'%i for i in range(len(m)))))
o.append('static const SigDef sigDefs[] = { %s };'%',\n\t'.join('{ "%s", { %s } }'%(r,', '.join('"%s"'%x for x in a)) for r,a in sigs))
for k,(r,a) in enumerate(sigs):
    ar=', '.join('%s a%d'%(cpp[t],i) for i,t in enumerate(a)) or ''
    tag=lambda t: 'Tag<%s>()'%("'%s'"%t if len(t)==1 else "'K'")
    puts=' '.join('arg(f, %s, a%d);'%(tag(t),i) for i,t in enumerate(a))
    if r=='v': o.append('static void h%d(%s){ Flat f; auto fill = [&](Flat &f){ (void)f; %s }; HostCall c(%d, fill); c.result(); }'%(k,ar,puts,k))
    else: o.append('static %s h%d(%s){ Flat f; auto fill = [&](Flat &f){ (void)f; %s }; HostCall c(%d, fill); return back(%s, (%s*)0, c.result()); }'%(cpp[r],k,ar,puts,k,tag(r),cpp[r]))
# callers of script functions
for k,(r,a) in enumerate(sigs):
    body=[]; args=[]
    for i,t in enumerate(a):
        if t in classes:
            body.append('%s a%d; get(in, a%d);'%(t,i,i)); args+=['a%d.m%d'%(i,j) for j in range(len(classes[t]))]
        else:
            body.append('auto a%d = val(in, %s, (%s*)0);'%(i,tag(t),cpp[t])); args.append('a%d'%i)
    av=''.join(', '+x for x in args)
    o.append('static nullres s%d(const char *name, NULLCFuncPtr *ptr, In &in){ (void)in; HostHold hold; %s hold.off(); return name ? nullcRunFunction(name%s) : nullcCallFunction(*ptr%s); }'%(k,' '.join(body),av,av))
n=len(sigs)
o.append('static const int SIGS = %d;'%n)
o.append('typedef nullres (*CallFn)(const char*, NULLCFuncPtr*, In&); static const CallFn callFns[] = { %s };'%', '.join('s%d'%k for k in range(n)))
o.append('static void bindAll(){ %s }'%'\n\t'.join('nullcBindModuleFunction("calls", (void(*)())h%d, "r%d", 0); nullcBindModuleFunctionHelper("calls", h%d, "w%d", 0);'%(k,k,k,k) for k in range(n)))
open('/verif/sim/calls_sigs.inc','w').write('\n'.join(o)+'\n')
