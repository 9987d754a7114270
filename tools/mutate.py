"""Enumerate mutants: list of (file, line, desc, newtext)."""
import ast, re, sys, os, random, json
ROOT="/repo/src/frds/"
CH={ "algorithms/_garch.py":"C04 C05 C09","algorithms/_mgarch.py":"C06 C07 C09","algorithms/utils/garch.hpp":"C04 C09","algorithms/utils/mgarch.hpp":"C07 C09",
"algorithms/utils/utils_module.cpp":"C01 C21","measures/measures_module.cpp":"C01 C08 C21","measures/lrmes.hpp":"C08 C09","algorithms/isolation_forest/IsolationForest.cpp":"C03 C02 C01",
"algorithms/isolation_forest/IsolationForest.hpp":"C03 C02 C01",
"algorithms/isolation_forest/iforest_module.cpp":"C01 C21 C03","algorithms/isolation_forest/__init__.py":"C03 C20","measures/_long_run_mes.py":"C08 C09","measures/_srisk.py":"C10",
"measures/_probability_of_informed_trading.py":"C11","measures/_marginal_expected_shortfall.py":"C12","measures/_systemic_expected_shortfall.py":"C12","measures/_kyle_lambda.py":"C13","measures/_z_score.py":"C13",
"measures/_absorption_ratio.py":"C14","measures/_contingent_claim_analysis.py":"C15","measures/_distress_insurance_premium.py":"C16","measures/_option_price.py":"C17","measures/spread.py":"C18","measures/price_impact.py":"C18","measures/lob_slope.py":"C19",
"measures/modified_merton/merton_solution.py":"C22","measures/modified_merton/find_face_value_indiv.py":"C22","measures/modified_merton/loan_payoff.py":"C22","measures/modified_merton/fftsmooth.py":"C22",
"measures/modified_merton/mod_merton_computation.py":"C23","measures/modified_merton/mod_single_cohort_computation.py":"C23","measures/modified_merton/mod_merton_create_lookup.py":"C23","measures/modified_merton/mod_single_merton_create_lookup.py":"C23","measures/modified_merton/mod_single_cohort_solution.py":"C23","datasets/_stocks.py":"C24"}
def offs(src):
    o=[0]
    for l in src.split("\n"): o.append(o[-1]+len(l.encode())+1)
    return o
def py(path):
    raw=open(ROOT+path,newline="").read(); crlf="\r\n" in raw; src=raw.replace("\r\n","\n"); b=src.encode(); o=offs(src)
    tree=ast.parse(src); muts=[]
    def pos(n): return o[n.lineno-1]+n.col_offset, o[n.end_lineno-1]+n.end_col_offset
    def seg(n): a,e=pos(n); return b[a:e].decode()
    def rep(n,new,desc):
        a,e=pos(n); t=(b[:a]+new.encode()+b[e:]).decode(); muts.append((path,n.lineno,desc+": "+seg(n)[:60].replace("\n"," ")+" -> "+new[:60].replace("\n"," "),t.replace("\n","\r\n") if crlf else t))
    doc=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant): doc.add(id(n.body[0].value))
        if isinstance(n,ast.If) and "__name__" in ast.unparse(n.test):
            for k in ast.walk(n): doc.add(id(k))
        if isinstance(n,(ast.arguments,)):
            for x in n.args: 
                if x.annotation: 
                    for k in ast.walk(x.annotation): doc.add(id(k))
        if isinstance(n,ast.AnnAssign) :
            for k in ast.walk(n.annotation): doc.add(id(k))
    OP={ast.Add:"-",ast.Sub:"+",ast.Mult:"/",ast.Div:"*"}
    CM={ast.Lt:"<=",ast.LtE:"<",ast.Gt:">=",ast.GtE:">",ast.Eq:"!=",ast.NotEq:"=="}
    SW={"minimum":"maximum","maximum":"minimum","min":"max","max":"min","nanmean":"mean","average":"median","mean":"median","std":"var","floor":"ceil","ceil":"floor","sqrt":"abs","log":"log1p","absolute":"negative","abs":"negative","exp":"expm1","sum":"mean","cumsum":"cumprod","cov":"corrcoef","corrcoef":"cov"}
    for n in ast.walk(tree):
        if id(n) in doc: continue
        if isinstance(n,ast.BinOp) and type(n.op) in OP:
            rep(n,seg(n.left)+" "+OP[type(n.op)]+" ("+seg(n.right)+")" if True else "", "binop") if not b[pos(n)[0]:pos(n)[1]].decode().startswith("((") else rep(n,"("+ast.unparse(n.left)+") "+OP[type(n.op)]+" ("+ast.unparse(n.right)+")","binop")
        elif isinstance(n,ast.Compare) and len(n.ops)==1 and type(n.ops[0]) in CM:
            rep(n,ast.unparse(n.left)+" "+CM[type(n.ops[0])]+" "+ast.unparse(n.comparators[0]),"cmp")
        elif isinstance(n,ast.Constant) and isinstance(n.value,(int,float)) and not isinstance(n.value,bool):
            v=n.value
            rep(n,repr(v+1 if isinstance(v,int) else v*1.1 if v else 0.1),"const")
        elif isinstance(n,ast.Constant) and isinstance(n.value,bool): rep(n,repr(not n.value),"bool")
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.USub) and not isinstance(n.operand,ast.Constant): rep(n,"("+seg(n.operand)+")","neg")
        elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): rep(n,"("+seg(n.operand)+")","not")
        elif isinstance(n,ast.Attribute) and n.attr in SW and isinstance(n.ctx,ast.Load): rep(n,seg(n.value)+"."+SW[n.attr],"func")
        elif isinstance(n,ast.Name) and n.id in ("min","max","abs","sqrt","log","exp") and isinstance(n.ctx,ast.Load): rep(n,{"min":"max","max":"min","abs":"float","sqrt":"abs","log":"abs","exp":"abs"}[n.id],"func")
        elif isinstance(n,(ast.AugAssign,)): rep(n,"pass","del")
        elif isinstance(n,ast.Assign) and isinstance(n.targets[0],(ast.Subscript,ast.Attribute)): rep(n,"pass","del")
        elif isinstance(n,ast.Expr) and isinstance(n.value,ast.Call): rep(n,"pass","del")
        elif isinstance(n,ast.Assert): pass
        elif isinstance(n,ast.If): rep(n.test,"not ("+seg(n.test)+")","ifnot")
        elif isinstance(n,ast.Continue): rep(n,"break","break")
    return muts
def cpp(path):
    raw=open(ROOT+path,newline="").read(); muts=[]
    code=re.sub(r"/\*.*?\*/",lambda m:" "*len(m.group()),raw,flags=re.S); code=re.sub(r"//[^\n]*",lambda m:" "*len(m.group()),code); code=re.sub(r'"[^"\n]*"',lambda m:'"'+"_"*(len(m.group())-2)+'"',code)
    code=re.sub(r"(?m)^#.*$",lambda m:" "*len(m.group()),code)
    R=[(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),(r" \+ "," - "),(r" - "," + "),(r" \* "," / "),(r" / "," * "),(r" && "," || "),(r" \|\| "," && "),(r"\b(\d+)\b",None),(r"\+= ","-= "),(r"Py_DECREF\([^)]*\);",";"),(r"\w+\.push_back\([^;]*\);",";"),(r"Py_CLEAR\([^)]*\);",";"),(r"return NULL;",None),(r"\.lock\(\);",None)]
    for pat,new in R:
        for m in re.finditer(pat,code):
            if "template" in raw[max(0,raw.rfind("\n",0,m.start())):m.end()]: continue
            if pat==r"\b(\d+)\b": t=str(int(m.group(1))+1)
            elif pat=="return NULL;" or pat==r"\.lock\(\);": continue
            else: t=new
            ln=raw.count("\n",0,m.start())+1
            muts.append((path,ln,f"{m.group()!r} -> {t!r} | "+raw.split("\n")[ln-1].strip()[:70],raw[:m.start()]+t+raw[m.end():]))
    return muts
def allm():
    out=[]
    for p in CH:
        for m in (py(p) if p.endswith(".py") else cpp(p)): out.append(m)
    return out
if __name__=="__main__":
    from collections import Counter
    ms=allm(); print(len(ms)); print(Counter(m[0] for m in ms))
