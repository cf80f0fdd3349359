#!/usr/bin/env python3
"""usage: mutate.py FILE N SEED CHECK...   N random small changes of FILE, one after another, each judged by the quick checks until one catches it"""
import io, os, random, re, shutil, subprocess, sys, time, tokenize

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "**": ["*"], "@": ["*"], "<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="],
        "and": ["or"], "or": ["and"], "True": ["False"], "False": ["True"], "+=": ["-="], "-=": ["+="], "*=": ["/="], "min": ["max"], "max": ["min"], "sin": ["cos"], "cos": ["sin"],
        "&&": ["||"], "||": ["&&"], "true": ["false"], "false": ["true"], "appendleft": ["append"], "break": ["continue"], "argmax": ["argmin"], "argmin": ["argmax"], "not": [""],
        "zeros": ["ones"], "ones": ["zeros"], "push_front": ["push_back"], "any": ["all"], "all": ["any"], "real": ["imag"], "imag": ["real"], "left": ["right"], "right": ["left"]}


def num(t):
    try:
        x = float(t.rstrip("_f64usizeij").replace("_", ""))
    except ValueError:
        return []
    if re.fullmatch(r"\d+", t):
        return [str(int(t) + 1)] + ([str(int(t) - 1)] if int(t) > 0 else [])
    if re.search(r"[eE]", t):
        return [f"({t}*3.0)"]
    return [f"({t}*1.1)"] if x else ["0.1"]


def sites(path):
    s = open(path).read()
    out, lines = [], s.split("\n")
    if path.endswith(".py"):
        skip = False
        for tok in tokenize.generate_tokens(io.StringIO(s).readline):
            l = tok.line
            if tok.start[1] == 0 and tok.type == tokenize.NAME:
                skip = tok.string in ("import", "from", "if", "try", "except") or "def main" in l or "plot" in l.lower()
            if skip or tok.type not in (tokenize.OP, tokenize.NUMBER, tokenize.NAME) or re.search(r"plt\.|ax\.|print\(|raise |argparse|assert", l):
                continue
            for r in SWAP.get(tok.string, []) + (num(tok.string) if tok.type == tokenize.NUMBER else []):
                if tok.string == "*" and re.search(r"\*args|\*kw|\(\*|, \*", l[max(0, tok.start[1] - 2):tok.end[1] + 4]):
                    continue
                if tok.string == "-" and l[:tok.start[1]].rstrip()[-1:] in "(,=:[*/":
                    continue
                out.append((tok.start[0], tok.start[1], tok.end[1], r))
    else:
        for i, l in enumerate(lines, 1):
            if "#[cfg(test)]" in l:
                break
            if l.lstrip().startswith(("/*", "*")):
                continue
            c = l.split("//")[0]
            if not c.strip() or re.match(r"\s*(use|pub use|fn|pub fn|#\[|impl|assert|print|panic|where|pub struct|pub trait|->)", c) or "LinOp<" in c or "&'" in c:
                continue
            for m in re.finditer(r"\b\d+\.\d*(?:[eE][-+]?\d+)?|\b\d+\b|\*\*|&&|\|\||<=|>=|==|!=|\+=|-=|\*=|(?<= )[-+*/<>](?= )|\b[a-z_]+\b", c):
                t = m.group()
                for r in SWAP.get(t, []) + (num(t) if t[0].isdigit() else []):
                    out.append((i, m.start(), m.end(), r))
    return out, lines


if __name__ == "__main__":
    f, n, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    st, lines = sites(f"/repo/{f}")
    random.Random(seed).shuffle(st)
    seen, todo = set(), []
    for x in st:                    # at most one per line
        if x[0] not in seen:
            seen.add(x[0]); todo.append(x)
    tag = re.sub(r"\W", "_", f)
    print(f"{f}: {len(st)} sites on {len(todo)} lines", flush=True)
    for ln, a, b, r in todo[:n]:
        w, out = f"/tmp/w/mut_{tag}_{seed}", f"/tmp/w/mutout_{tag}_{seed}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {w}", shell=True, check=True)
        new = list(lines)
        new[ln - 1] = new[ln - 1][:a] + r + new[ln - 1][b:]
        open(f"{w}/{f}", "w").write("\n".join(new))
        t, res = time.time(), "SURVIVED"
        for c in checks:
            p = subprocess.run(["/opt/venv/bin/python", f"{V}/run.py", c, "--tier", "quick"], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_DEV_REPO=w, VERIF_DEV_OUT=out, VERIF_DEV_GRACE="0"))
            if p.returncode == 1:
                res = "caught " + c
                break
            if p.returncode:
                res = f"rc {p.returncode} {c}"
        print(f"{res:12s} {time.time() - t:4.0f}s {ln}: {lines[ln - 1].strip()[:110]}   [{lines[ln - 1][a:b]} -> {r}]", flush=True)
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(out, ignore_errors=True)
