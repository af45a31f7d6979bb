"""Snapshot the reviewed, repaired source as reference definitions (docstrings and comments dropped). Run by hand after review, never by a check."""
import ast,os,sys
SRC="/repo/regain"; DST="/verif/ref/regain"
for dp,dn,fn in os.walk(SRC):
    rel=os.path.relpath(dp,SRC)
    if "tests" in rel.split(os.sep) or "__pycache__" in dp or rel.startswith("plotting"): continue
    for f in fn:
        if not f.endswith(".py"): continue
        src=open(os.path.join(dp,f)).read()
        tree=ast.parse(src)
        for n in ast.walk(tree):
            if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
                n.body=n.body[1:] or [ast.Pass()]
        out=os.path.join(DST,rel,f); os.makedirs(os.path.dirname(out),exist_ok=True)
        open(out,"w").write(ast.unparse(tree)+"\n")
