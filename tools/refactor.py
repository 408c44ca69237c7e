"""Behaviour-preserving transforms of a copy of the package: locals renamed, conditions inverted, terms and results named,
independent statements swapped, bodies moved into helpers.  usage: refactor.py COPY/deltares_wave_toolbox SEED.  Never on /repo."""
import ast, sys, os, random
root=sys.argv[1]; random.seed(int(sys.argv[2]))
class T(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        # transforms per function
        fn=self.generic_visit(fn)
        stores=set(); bad=set()
        for n in ast.walk(fn):
            if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Store): stores.add(n.id)
            if isinstance(n,(ast.Global,ast.Nonlocal)): bad|=set(n.names)
        args={a.arg for a in fn.args.args}
        ren={s:f"{s}_v{random.randint(0,9)}" for s in stores-args-bad if s!="_" and s not in("series","spectrum")}
        # 'series' local in create_series shadows module; leave
        for n in ast.walk(fn):
            if isinstance(n,ast.Name) and n.id in ren: n.id=ren[n.id]
        return fn
    def visit_If(self,n):
        n=self.generic_visit(n)
        if n.orelse and random.random()<0.7 and not (len(n.orelse)==1 and isinstance(n.orelse[0],ast.If)):
            n=ast.If(test=ast.UnaryOp(op=ast.Not(),operand=n.test),body=n.orelse,orelse=n.body)
        return n
def temps(body,ctr):
    out=[]
    for s in body:
        for f in("body","orelse","finalbody"):
            if getattr(s,f,None) and isinstance(s,(ast.For,ast.If,ast.With,ast.Try,ast.While)): setattr(s,f,temps(getattr(s,f),ctr))
        if isinstance(s,ast.Assign) and isinstance(s.value,ast.BinOp) and random.random()<0.6:
            ctr[0]+=1; nm=f"part_{ctr[0]}"
            out.append(ast.Assign(targets=[ast.Name(nm,ast.Store())],value=s.value.left,lineno=0))
            s.value.left=ast.Name(nm,ast.Load())
        if isinstance(s,ast.Return) and s.value is not None and not isinstance(s.value,ast.Constant) and random.random()<0.6:
            ctr[0]+=1; nm=f"answer_{ctr[0]}"
            out.append(ast.Assign(targets=[ast.Name(nm,ast.Store())],value=s.value,lineno=0)); s.value=ast.Name(nm,ast.Load())
        if isinstance(s,(ast.FunctionDef,)): s.body=temps(s.body,[0])
        if isinstance(s,ast.ClassDef): s.body=temps(s.body,ctr)
        out.append(s)
    return out
def reorder(fn):
    # swap adjacent independent simple assignments of names with pure-ish numpy values
    def rw(s):
        r={n.id for n in ast.walk(s) if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Load)}
        w={n.id for n in ast.walk(s) if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Store)}
        return r,w
    for node in ast.walk(fn):
        for f in("body","orelse"):
            b=getattr(node,f,None)
            if not isinstance(b,list): continue
            i=0
            while i+1<len(b):
                a,c=b[i],b[i+1]
                if all(isinstance(q,ast.Assign) and isinstance(q.targets[0],(ast.Name,ast.Tuple)) and not any(isinstance(z,(ast.Attribute,)) and isinstance(z.ctx,ast.Store) for z in ast.walk(q)) for q in(a,c)):
                    ra,wa=rw(a); rc,wc=rw(c)
                    rnd=lambda q:"random" in ast.unparse(q) or "warn" in ast.unparse(q)
                    if not(wa&rc or wc&ra or wa&wc) and not rnd(a) and not rnd(c) and random.random()<0.6:
                        b[i],b[i+1]=c,a; i+=1
                i+=1
def extract(tree):
    # every module-level function body moves into a helper; every method delegates to a private method
    new=[]
    for n in tree.body:
        if isinstance(n,ast.FunctionDef) and random.random()<0.6 and not n.args.kwonlyargs and not n.decorator_list:
            import copy
            h=copy.deepcopy(n); h.name="_"+n.name+"_impl"; h.args.defaults=[]
            if h.body and isinstance(h.body[0],ast.Expr): h.body=h.body[1:] or [ast.Pass()]
            if "stacklevel" in ast.unparse(n): new.append(n); continue
            call=ast.Call(func=ast.Name(h.name,ast.Load()),args=[ast.Name(a.arg,ast.Load()) for a in n.args.args],keywords=[])
            n.body=(n.body[:1] if isinstance(n.body[0],ast.Expr) else [])+[ast.Return(value=call)]
            new+= [h,n]
        else: new.append(n)
    tree.body=new
for d,_,fs in os.walk(root):
    for f in fs:
        if f.endswith(".py") and f!="__init__.py":
            p=os.path.join(d,f); t=ast.parse(open(p).read())
            t=T().visit(t); 
            for n in ast.walk(t):
                if isinstance(n,ast.FunctionDef): reorder(n)
            t.body=temps(t.body,[0]); extract(t)
            ast.fix_missing_locations(t); open(p,"w").write(ast.unparse(t)+"\n")
