#!/usr/bin/env python3
"""usage: mutate_ast.py FILE N SEED CHECK...   like mutate.py, with changes of structure: another variable, a dropped statement or keyword, swapped arguments, a forced condition"""
import ast, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sites(path, rnd):
    src = open(path).read()
    tree = ast.parse(src)
    seg = lambda n: ast.get_source_segment(src, n)
    out = []

    def add(n, new, kind):
        out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, kind))

    for cls in [tree] + [c for c in ast.walk(tree) if isinstance(c, ast.ClassDef)]:
        attrs = sorted({a.attr for a in ast.walk(cls) if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self" and isinstance(a.ctx, ast.Store)}) if cls is not tree else []
        for fn in [f for f in cls.body if isinstance(f, ast.FunctionDef)]:
            if "plot" in fn.name or fn.name == "main":
                continue
            names = sorted({a.arg for a in fn.args.args} | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - {"self"})
            names = [x for x in names if x != "self"]
            skip = set()
            for n in ast.walk(fn):
                if isinstance(n, (ast.Assert, ast.Raise)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "warn") or isinstance(n, ast.arguments):
                    skip |= {id(x) for x in ast.walk(n)}
                for d in getattr(n, "decorator_list", []):
                    skip |= {id(x) for x in ast.walk(d)}
            for n in ast.walk(fn):
                if id(n) in skip:
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
                    add(n, rnd.choice([x for x in names if x != n.id]), "var")
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load) and n.attr in attrs and len(attrs) > 1:
                    add(n, "self." + rnd.choice([x for x in attrs if x != n.attr]), "attr")
                elif isinstance(n, (ast.Assign, ast.AugAssign)):
                    add(n, "pass", "drop")
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not (isinstance(n.value.func, ast.Name) and n.value.func.id == "print"):
                    add(n, "pass", "drop")
                elif isinstance(n, (ast.If, ast.IfExp)):
                    add(n.test, rnd.choice(["True", "False"]), "cond")
                elif isinstance(n, ast.BinOp) and rnd.random() < 0.5:
                    add(n, seg(rnd.choice([n.left, n.right])), "term")
                if isinstance(n, ast.Call):
                    if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                        i = rnd.randrange(len(n.args) - 1)
                        a, b = n.args[i], n.args[i + 1]
                        if seg(a) != seg(b) and a.lineno == b.end_lineno:
                            out.append((a.lineno, a.col_offset, b.end_lineno, b.end_col_offset, f"{seg(b)}, {seg(a)}", "swap"))
                    for k in n.keywords:
                        if len(n.args) + len(n.keywords) > 1:
                            t = [ast.get_source_segment(src, x) for x in n.args] + [seg(x) for x in n.keywords if x is not k]
                            out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, f"{seg(n.func)}({', '.join(t)})", "kw"))
    return src, out


if __name__ == "__main__":
    f, n, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    rnd = random.Random(seed)
    src, st = sites(f"/repo/{f}", rnd)
    rnd.shuffle(st)
    lines = src.split("\n")
    tag = re.sub(r"\W", "_", f)
    print(f"{f}: {len(st)} sites", flush=True)
    seen, k = set(), 0
    for l0, c0, l1, c1, new, kind in st:
        if k >= n:
            break
        if (l0, kind) in seen:
            continue
        seen.add((l0, kind))
        old = "\n".join(lines[l0 - 1:l1])
        mut = lines[l0 - 1][:c0] + new + lines[l1 - 1][c1:]
        res = list(lines)
        res[l0 - 1:l1] = [mut]
        text = "\n".join(res)
        try:
            compile(text, f, "exec")
        except SyntaxError:
            continue
        k += 1
        w, out = f"/tmp/w/mast_{tag}_{seed}", f"/tmp/w/mastout_{tag}_{seed}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {w}", shell=True, check=True)
        open(f"{w}/{f}", "w").write(text)
        t, r = time.time(), "SURVIVED"
        for c in checks:
            p = subprocess.run(["/opt/venv/bin/python", f"{V}/run.py", c, "--tier", "quick"], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_DEV_REPO=w, VERIF_DEV_OUT=out, VERIF_DEV_GRACE="0"))
            if p.returncode == 1:
                r = "caught " + c
                break
            if p.returncode:
                r = f"rc {p.returncode} {c}"
        print(f"{r:12s} {time.time() - t:4.0f}s {l0} {kind}: {old.strip()[:100]!r} -> {mut.strip()[:100]!r}", flush=True)
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
