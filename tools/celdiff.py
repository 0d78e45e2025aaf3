"""Validation of the CEL model: `celdiff.py real|model [FILE]` prints what each expression gives in the real library / in the model (diff the two)."""
import sys,json
vals=["1","1.5","1u","true","false","null","'a'","[1]","['a']","[]","{}","{'a':1}","{'a':'x'}","[1,'a']","['a',1]","[[1]]","(inputs.absent.deeper)","[inputs.absent]","{'a':inputs.absent}","inputs.ok","inputs.x","[true]","1.0","2"]
exprs=[f"{a} {op} {b}" for a in vals for b in vals for op in ("==","!=","in","<")]
if len(sys.argv)>2: exprs=open(sys.argv[2]).read().splitlines()
if sys.argv[1]=="real":
    sys.path.insert(0,'/verif/tools/demo')
    from compat import *
    from koreo import result
    import logging; logging.disable(logging.CRITICAL)
    async def main():
        for e in exprs:
            try: fn=await prepare_vf({"return":{"v":"="+e}})
            except BaseException as x: print(e,"-> PREP"); continue
            if isinstance(fn,(result.PermFail)): print(e,"-> PREP"); continue
            r=await reconcile_vf(fn,{"ok":1,"x":{}})
            print(e,"->","FAIL" if isinstance(r,result.PermFail) else repr(r["v"]).replace("celpy.celtypes.",""))
    run(main())
else:
    sys.path.insert(0,'/verif')
    from sa.engine import Checker
    from sa.scen import *
    chk=Checker("/repo"); chk.load()
    def show(ip,v):
        v=ip.force(v)
        if isinstance(v,CBool): return f"BoolType({bool(v)})"
        return str(v)
    for e in exprs:
        def scen(s,e=e):
            try: fn,_=s.prepare("ValueFunction","x",{"return":{"v":"="+e}})
            except (AExc,PrepareFailed): return "PREP"
            r=s.call("koreo.value_function.reconcile.reconcile_value_function",location="l",function=fn,inputs=s.cel({"ok":1,"x":{}}))
            return "FAIL" if s.kind(r)=="PermFail" else show(s.ip,s.ip.dict_get(r,"v"))
        for p in chk.explore(scenario(chk,scen)):
            print(e,"->",p.error or p.outcome[1])
