"""Rewrites ctx.check(cond, f"...") to ctx.check(cond, lambda: f"...") (formatting messages eagerly dominates the run time)."""
import ast, sys
for p in sys.argv[1:]:
    s = open(p).read()
    t = ast.parse(s)
    lines = s.split("\n")
    pos = []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "check" and len(n.args) > 1:
            a = n.args[1]
            if isinstance(a, (ast.JoinedStr,)):
                pos.append((a.lineno, a.col_offset))
    for l, c in sorted(pos, reverse=True):
        b = lines[l - 1].encode()
        lines[l - 1] = (b[:c] + b"lambda: " + b[c:]).decode()
    open(p, "w").write("\n".join(lines))
