"""Print the table of facets (name, cases per tier, rule) kept at the end of DESIGN.md."""
import ast
import glob
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def number(node):
    try:
        return ast.literal_eval(node)
    except ValueError:
        return ast.unparse(node)


print("| check | facet | quick | thorough | rule for a non-trivial case |")
print("|---|---|---|---|---|")
for path in sorted(glob.glob(os.path.join(HERE, "checks", "C*.py"))):
    name = os.path.basename(path)[:-3]
    for f in ast.walk(ast.parse(open(path).read())):
        if not isinstance(f, ast.FunctionDef):
            continue
        for d in f.decorator_list:
            if isinstance(d, ast.Call) and ast.unparse(d.func) == "prop.facet":
                k = {w.arg: number(w.value) for w in d.keywords}
                variant = " (pure, compiled)" if "variant" in k else ""
                print("| %s | %s%s | %s | %s | %s |" % (
                    name, f.name, variant, k.get("quick", ""), k.get("thorough", "15x"),
                    str(k.get("rule", "")).replace("|", "/")))
