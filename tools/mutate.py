#!/usr/bin/env python3
"""mutate.py PROP[,PROP2] FILE[:func,func...] [--max N] [--jobs J] [--seed S] [--timeout T]
Small syntactic changes of FILE (under the repository), one at a time in scratch copies; each PROP's quick check is run
until one reports a violation.  Prints the changes that no check noticed.  A development aid, not a check: survivors are
read by hand (equivalent, outside the properties, or a gap to close)."""
import ast, json, os, random, shutil, subprocess, sys, hashlib, time, threading, queue
W = "/tmp/mut"
PY = "/opt/venv/bin/python"


class Gen(ast.NodeVisitor):
    def __init__(self, src, funcs):
        self.src, self.funcs, self.out, self.stack = src, funcs, [], []
        self.lines = src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def on(self):
        return not self.funcs or any(f in self.funcs for f in self.stack)

    def put(self, n, new, kind):
        if self.on() and self.stack:
            a, b = self.span(n)
            self.out.append((a, b, new, kind, n.lineno, ".".join(self.stack)))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def visit_Compare(self, n):
        sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not",
              ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
        if len(n.ops) == 1:
            t = type(n.ops[0])
            self.put(n, "(%s %s %s)" % (self.seg(n.left), sw[t], self.seg(n.comparators[0])), "cmp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        j = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + j.join("(%s)" % self.seg(v) for v in n.values) + ")", "bool")
        for i in range(len(n.values)):
            if len(n.values) > 1:
                o = " and " if isinstance(n.op, ast.And) else " or "
                self.put(n, "(" + o.join("(%s)" % self.seg(v) for k, v in enumerate(n.values) if k != i) + ")", "drop")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, "(%s)" % self.seg(n.operand), "not")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "+", ast.LShift: ">>", ast.RShift: "<<",
              ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}
        if type(n.op) in sw and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.put(n, "(%s %s %s)" % (self.seg(n.left), sw[type(n.op)], self.seg(n.right)), "bin")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.put(n, str(not v), "const")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "const")
            if v > 1:
                self.put(n, str(v - 1), "const")
        elif isinstance(v, bytes) and v:
            self.put(n, repr(v[:-1] + bytes([v[-1] ^ 1])), "const")

    def visit_If(self, n):
        self.put(n.test, "True", "iftrue")
        self.put(n.test, "False", "iffalse")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n.test, "True", "iftrue")
        self.put(n.test, "False", "iffalse")
        self.generic_visit(n)

    def stmt(self, n):
        self.put(n, "pass", "del")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        s = self.seg(n)
        if "logger" in s or "print(" in s or "gc.collect" in s or "mem_trace" in s or "collect(" in s or "unimport" in s:
            return
        self.stmt(n)
    visit_Raise = visit_AugAssign = visit_Delete = visit_Assert = visit_Continue = visit_Break = stmt

    def visit_Raise(self, n):
        self.put(n, "pass", "del")

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.put(n, "pass", "del")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and isinstance(n.value, (ast.Compare, ast.BoolOp, ast.Call, ast.Name)):
            self.put(n.value, "(not %s)" % self.seg(n.value), "retnot") if isinstance(n.value, (ast.Compare, ast.BoolOp)) else None
        self.generic_visit(n)

    def visit_Call(self, n):
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            a, b = n.args[0], n.args[1]
            x, y = self.span(a)[0], self.span(b)[1]
            if self.on() and self.stack:
                mid = self.b[self.span(a)[1]:self.span(b)[0]].decode()
                self.out.append((x, y, self.seg(b) + mid + self.seg(a), "swap", n.lineno, ".".join(self.stack)))
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            for p in (s.lower, s.upper):
                if p is not None and not isinstance(p, ast.Constant):
                    self.put(p, "(%s) + 1" % self.seg(p), "slice")
        self.generic_visit(n)


REPO = os.environ.get("MUT_REPO", "/repo")


def main():
    av = sys.argv[1:]
    opt = {"--max": "60", "--jobs": "4", "--seed": "1", "--timeout": "400"}
    for k in list(opt):
        if k in av:
            i = av.index(k)
            opt[k] = av[i + 1]
            del av[i:i + 2]
    props = av[0].split(",")
    muts = []
    if props == ["--hand"]:                    # a file with M = [(properties, path, old, new)]
        g = {}
        exec(open(av[1]).read(), g)
        for pr, f, old, new in g["M"]:
            t = open(REPO + "/" + f).read()
            if t.count(old) != 1:
                print("?? %d matches of %r in %s" % (t.count(old), old[:80], f))
                continue
            n = t.replace(old, new)
            compile(n, f, "exec")
            muts.append((f, n.encode(), pr, t[:t.index(old)].count("\n") + 1, "", old[:90], new[:90]))
        av = av[:1]
    for spec in av[1:]:
        f, _, fn = spec.partition(":")
        src = open(REPO + "/" + f).read()
        g = Gen(src, set(fn.split(",")) if fn else None)
        g.visit(ast.parse(src))
        seen = set()
        for m in g.out:
            t = (g.b[:m[0]] + m[2].encode() + g.b[m[1]:])
            h = hashlib.md5(t).digest()
            try:
                compile(t, f, "exec")
            except SyntaxError:
                continue
            if h in seen or t == g.b:
                continue
            seen.add(h)
            muts.append((f, t, m[3], m[4], m[5], g.b[m[0]:m[1]].decode()[:90], m[2][:90]))
    tot = len(muts)
    if props != ["--hand"]:
        random.Random(int(opt["--seed"])).shuffle(muts)
        muts = muts[:int(opt["--max"])]
    print("%d of %d changes" % (len(muts), tot), flush=True)
    V = W + "/verif-%d" % os.getpid()
    shutil.copytree("/verif", V, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replay"))
    with open(V + "/vlib/tlc.py", "a") as fh:      # the specifications do not change: keep TLC's answers
        fh.write('''
_run = run
def run(module, cfg, workers=4, timeout=600, extra=(), heap="3g", files=None):
    import hashlib, pickle
    hh = hashlib.sha256(repr((module, cfg, sorted((files or {}).items()), tuple(extra))).encode())
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            hh.update(open(os.path.join(SPEC, f), "rb").read())
    p = "/tmp/mut/cache/" + hh.hexdigest()
    os.makedirs("/tmp/mut/cache", exist_ok=True)
    if os.path.exists(p):
        return pickle.load(open(p, "rb"))
    r = _run(module, cfg, workers, timeout, extra, heap, files)
    with open(p + ".%d" % os.getpid(), "wb") as fh:
        pickle.dump(r, fh)
    os.rename(p + ".%d" % os.getpid(), p)
    return r
''')
    q = queue.Queue()
    for i, m in enumerate(muts):
        q.put((i, m))
    res, lock = {}, threading.Lock()

    def work(k):
        d = W + "/r%d-%d" % (os.getpid(), k)
        shutil.copytree(REPO, d, symlinks=True)
        while True:
            try:
                i, m = q.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(d, m[0])
            old = open(p, "rb").read()
            open(p, "wb").write(m[1])
            r, t0, what = "SURVIVED", time.time(), ""
            for prop in (m[2].split(",") if props == ["--hand"] else props):
                try:
                    x = subprocess.run(["timeout", "-k", "5", opt["--timeout"], PY, V + "/checks/run.py", prop], cwd=V,
                                       env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED="1"),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                except Exception as e:
                    what = repr(e)
                    continue
                o = x.stdout.decode("utf8", "replace")
                if x.returncode == 1 and "VIOLATION property=" in o:
                    r = "killed " + prop
                    break
                if x.returncode != 0:
                    r, what = "NOANSWER %d %s" % (x.returncode, prop), o[-400:]
                    break
            open(p, "wb").write(old)
            with lock:
                res[i] = r
                if not r.startswith("killed"):
                    print("%s #%d %.0fs %s:%d %s [%s] %r -> %r %s" % (r, i, time.time() - t0, m[0], m[3], m[4], m[2], m[5], m[6], what), flush=True)
        shutil.rmtree(d, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(opt["--jobs"]))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(V, ignore_errors=True)
    import collections
    print(dict(collections.Counter(r.split()[0] + (" " + r.split()[1] if r.startswith("killed") else "") for r in res.values())))


main()
