import ast,sys
s=open("/repo/src/frequenz/channels/"+sys.argv[1]).read()
t=ast.parse(s)
for n in ast.walk(t):
    if hasattr(n,"body") and isinstance(n.body,list):
        n.body=[x for x in n.body if not(isinstance(x,ast.Expr) and isinstance(x.value,ast.Constant) and isinstance(x.value.value,str))] or [ast.Pass()]
print(ast.unparse(t))
