"""A second set of mutation operators, closer to the mistakes people make (used like mutants.py, whose machinery it shares)."""
import os
import sys
src=open(os.path.dirname(os.path.abspath(__file__)) + "/mutants.py", encoding="utf-8").read()
src=src.replace('if __name__ == "__main__":\n    main()','')
exec(src)
class Finder2(Finder):
    def __init__(self,text):
        super().__init__(text)
def only(name):
    def f(self,node): self.generic_visit(node)
    return f
for n in ("Raise","Assert","AnnAssign","Assign","AugAssign","Return","Continue","Break","BoolOp","UnaryOp","If","comprehension","Constant","JoinedStr","BinOp","Attribute","Name"):
    setattr(Finder2,"visit_"+n,only(n))
def v_raise(self,node): pass
Finder2.visit_Raise=v_raise
Finder2.visit_Assert=v_raise
def v_cmp(self,node):
    if len(node.ops)==1:
        op=node.ops[0]; l=self.source(node.left); r=self.source(node.comparators[0])
        if isinstance(op,ast.IsNot) and r=="None" and not l.startswith("xml"):
            self.add(node,"truthy",l)
        elif isinstance(op,ast.Is) and r=="None" and not l.startswith("xml"):
            self.add(node,"truthy",f"(not {l})")
        elif isinstance(op,ast.Eq) and not r.isdigit():
            self.add(node,"lower",f"(str({l}).lower() == str({r}).lower())")
            self.add(node,"prefix",f"str({l}).startswith(str({r}))")
            self.add(node,"suffix",f"str({l}).endswith(str({r}))")
        elif isinstance(op,ast.In):
            self.add(node,"lower",f"(str({l}).lower() in [str(_x).lower() for _x in {r}])")
        elif isinstance(op,ast.Gt) and r=="0":
            self.add(node,"more",f"({l} > 1)")
    self.generic_visit(node)
Finder2.visit_Compare=v_cmp
def v_for(self,node):
    it=self.source(node.iter)
    for new in (f"list({it})[:2]",f"list({it})[:9]",f"list(dict.fromkeys({it}))",f"sorted({it}, key=str)"):
        self.add(node,"for",new,self.span(node.iter))
    self.generic_visit(node)
Finder2.visit_For=v_for
def v_call(self,node):
    s=self.source(node); f=self.source(node.func)
    if f=="isinstance" and isinstance(node.args[1],(ast.Name,ast.Attribute)):
        self.add(node,"exact",f"(type({self.source(node.args[0])}) is {self.source(node.args[1])})")
    for a in node.args:
        t=self.source(a)
        if t.endswith(".text") or t in("text","name","value","ref_str","str(elem.value)") :
            self.add(a,"strip",f"({t}.strip() if isinstance({t}, str) else {t})")
            self.add(a,"cut",f"({t}[:40] if isinstance({t}, str) else {t})")
    if f.endswith(".append") and len(node.args)==1 and not f.startswith("super") and f.count(".")>1:
        x=self.source(node.args[0])
        if "(" not in x: self.add(node,"dedupe",f"({s} if {x} not in {f[:-7]} else None)")
    if f in("str","int","float") and node.args:
        pass
    self.generic_visit(node)
Finder2.visit_Call=v_call
def v_expr(self,node): self.generic_visit(node)
Finder2.visit_Expr=v_expr
Finder=Finder2
if __name__ == "__main__":
    main()
