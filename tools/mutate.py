"""Mutation survey: how much of what the code does do the checks notice?

mutate.py list                       list all mutation sites
mutate.py run SITES OUT [WORKERS]    try the sites named in a file (one id per line)

Every mutant is one small change in a scratch copy of the repository. The properties are tried in the
order of their affinity to the mutated module, each with a fraction of its quick cases, until one reports
a violation. This is a tool for finding holes in the checks; no check uses it."""

import ast
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_SOURCE", "/repo")
BASE = "/tmp/mut"
MODULES = ["aerodynamics", "functions", "geometry", "meshing", "movement", "operating_point", "panel", "problems", "convergence", "trim",
           "output", "steady_horseshoe_vortex_lattice_method", "steady_ring_vortex_lattice_method", "unsteady_ring_vortex_lattice_method"]
FIRST = {
    "aerodynamics": "C01 C02 C03 C11 C12 C18 C19 C20", "functions": "C13 C11 C12 C18 C20 C29 C06 C07 C30 C02",
    "geometry": "C04 C05 C08 C10 C06", "meshing": "C06 C07 C05 C10", "movement": "C22 C23 C24 C10 C21",
    "operating_point": "C09 C13 C11", "panel": "C03 C13 C08", "problems": "C21 C24 C13 C25", "convergence": "C27 C28 C10",
    "trim": "C26 C10", "output": "C30", "steady_horseshoe_vortex_lattice_method": "C11 C13 C29 C25 C15 C14",
    "steady_ring_vortex_lattice_method": "C12 C13 C29 C25 C15 C17", "unsteady_ring_vortex_lattice_method": "C18 C19 C20 C21 C13 C25 C29 C17",
}
# Properties that cannot be affected much by a module are left out.
LATER = "C13 C11 C12 C18 C19 C20 C21 C25 C15 C16 C17 C29 C14 C30 C06 C07 C22 C23 C24 C10 C31 C32 C27 C28 C26 C03 C08"
ONLY = {"output": "C30 C31", "trim": "C26 C10 C25 C31", "convergence": "C27 C28 C10 C31"}
SWAPS = [("left", "right"), ("front", "back"), ("inner", "outer"), ("upper", "lower"), ("force", "moment"), ("chordwise", "spanwise"),
         ("current", "last"), ("x_le", "y_le"), ("sweep", "heav"), ("wing", "airplane"), ("vectors", "centers"), ("origin", "termination"),
         ("next", "this"), ("alpha", "beta"), ("_1", "_2"), ("mean", "rms"), ("period", "amplitude"), ("s_ref", "b_ref"), ("c_ref", "b_ref")]


def docstring_nodes(tree):
    out = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str):
            out.add(id(node.value))
    return out


class Sites(ast.NodeVisitor):
    def __init__(self, source, module):
        self.source, self.module = source, module
        self.lines = source.splitlines(keepends=True)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.bytes = source.encode()
        self.out = []
        self.stack = []
        self.mute = 0
        self.names = set()
        tree = ast.parse(source)
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute):
                self.names.add(n.attr)
            elif isinstance(n, ast.Name):
                self.names.add(n.id)
        self.visit(tree)

    def pos(self, node):
        return self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset

    def text(self, node):
        a, b = self.pos(node)
        return self.bytes[a:b].decode()

    def add(self, kind, a, b, new, line):
        if self.mute:
            return
        old = self.bytes[a:b].decode()
        if old == new:
            return
        key = "%s:%d:%d:%s:%s" % (self.module, line, a - self.starts[line - 1], kind, hashlib.md5(new.encode()).hexdigest()[:4])
        self.out.append({"id": key, "module": self.module, "a": a, "b": b, "new": new, "old": old, "line": line, "where": ".".join(self.stack), "kind": kind})

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        for n in node.body:
            self.visit(n)
        for d in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            self.visit(d)
        self.stack.pop()

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        for n in node.body:
            self.visit(n)
        self.stack.pop()

    def visit_Raise(self, node):
        return

    def visit_Import(self, node):
        return

    visit_ImportFrom = visit_Import

    def visit_JoinedStr(self, node):
        return

    def between(self, left, right):
        a, b = self.pos(left)[1], self.pos(right)[0]
        return a, b, self.bytes[a:b].decode()

    def visit_BinOp(self, node):
        ops = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}
        if type(node.op) in ops:
            old, new = ops[type(node.op)]
            a, b, t = self.between(node.left, node.right)
            if t.count(old) == 1 and "#" not in t:
                self.add("op", a, b, t.replace(old, new), node.left.end_lineno)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        ops = {ast.Add: ("+=", "-="), ast.Sub: ("-=", "+=")}
        if type(node.op) in ops:
            old, new = ops[type(node.op)]
            a, b, t = self.between(node.target, node.value)
            self.add("aug", a, b, t.replace(old, new), node.lineno)
        self.remove(node)
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            ops = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="),
                   ast.Is: (" is ", " is not "), ast.IsNot: (" is not ", " is ")}
            if type(node.ops[0]) in ops:
                old, new = ops[type(node.ops[0])]
                a, b, t = self.between(node.left, node.comparators[0])
                self.add("cmp", a, b, t.replace(old, new), node.left.end_lineno)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        for l, r in zip(node.values, node.values[1:]):
            a, b, t = self.between(l, r)
            if " and" in t or "and " in t:
                self.add("bool", a, b, t.replace("and", "or"), l.end_lineno)
            elif "or" in t:
                self.add("bool", a, b, t.replace("or", "and"), l.end_lineno)
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            a, b = self.pos(node)
            self.add("not", a, b, self.text(node.operand), node.lineno)
        if isinstance(node.op, ast.USub):
            a, b = self.pos(node)
            self.add("neg", a, b, "(" + self.text(node.operand) + ")", node.lineno)
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        a, b = self.pos(node)
        if v is True or v is False:
            self.add("const", a, b, str(not v), node.lineno)
        elif isinstance(v, int):
            self.add("const", a, b, str(v + 1), node.lineno)
            if v in (1, 2, 3):
                self.add("const", a, b, str(v - 1), node.lineno)
        elif isinstance(v, float):
            self.add("const", a, b, repr(v * 1.1 if v else 0.1), node.lineno)

    def visit_Name(self, node):
        self.swap(node, node.id, node.id)

    def visit_Attribute(self, node):
        if isinstance(node.ctx, ast.Load):
            self.swap(node, node.attr, node.attr)
        self.generic_visit(node)

    def swap(self, node, name, old):
        if isinstance(node.ctx, ast.Store):
            return
        for x, y in SWAPS:
            for p, q in ((x, y), (y, x)):
                if p in name and name.replace(p, q) in self.names:
                    b = self.pos(node)[1]
                    a = b - len(name.encode())
                    self.add("swap", a, b, name.replace(p, q), node.end_lineno)
                elif p in name and q in name:
                    new = name.replace(p, "\0").replace(q, p).replace("\0", q)
                    if new in self.names and new != name:
                        b = self.pos(node)[1]
                        self.add("swap", b - len(name.encode()), b, new, node.end_lineno)

    def visit_Call(self, node):
        f = self.text(node.func)
        if ".info" in f or ".warning" in f or ".critical" in f or "logging" in f or f == "print" and self.module != "output":
            return
        if f.split(".")[-1] in ("copy", "deepcopy"):
            a, b = self.pos(node)
            inner = self.text(node.args[0]) if node.args else self.text(node.func.value)
            self.add("copy", a, b, inner, node.lineno)
        renames = {"cos": "sin", "sin": "cos", "ceil": "floor", "floor": "ceil", "max": "min", "min": "max", "round": "math.floor", "vstack": "hstack",
                   "zeros": "ones", "ones": "zeros", "abs": "float", "sqrt": "abs", "flipud": "array", "mean": "max", "argmin": "argmax", "degrees": "radians", "radians": "degrees"}
        last = f.split(".")[-1]
        if last in renames and last not in ("round", "abs"):
            b = self.pos(node.func)[1]
            self.add("call", b - len(last), b, renames[last], node.func.end_lineno)
        elif last == "abs":
            a, b = self.pos(node.func)
            self.add("call", a, b, "", node.func.end_lineno)
        for k in node.keywords:
            if k.arg and "_" in k.arg and len(node.keywords) > 3:
                pass
        self.generic_visit(node)

    def remove(self, node):
        a, b = self.pos(node)
        self.add("del", a, b, "pass", node.lineno)

    def visit_Assign(self, node):
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in node.targets):
            # Constructors mostly store arguments; leave those to the swaps.
            if not (self.stack and self.stack[-1] == "__init__" and isinstance(node.value, (ast.Name, ast.Constant))):
                self.remove(node)
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call):
            f = self.text(node.value.func)
            if not (".info" in f or ".warning" in f or ".critical" in f or "logging" in f):
                self.remove(node)
        self.generic_visit(node)

    def visit_If(self, node):
        a, b = self.pos(node.test)
        self.add("if", a, b, "not (" + self.text(node.test) + ")", node.test.lineno)
        self.generic_visit(node)

    def visit_IfExp(self, node):
        a, b = self.pos(node.test)
        self.add("if", a, b, "not (" + self.text(node.test) + ")", node.test.lineno)
        self.generic_visit(node)


def sites():
    out = []
    for m in MODULES:
        s = Sites(open("%s/pterasoftware/%s.py" % (REPO, m)).read(), m)
        out += s.out
    return out


CHILD = r'''
import sys, os, json, importlib, time, signal
sys.path.insert(0, os.path.join(%r, "harness"))
import core
core.ensure_hypothesis()
props, fraction, seconds, least = json.loads(sys.argv[1])
import pterasoftware
start = time.monotonic()
import build
warmed = set()
for prop in props:
    module = importlib.import_module("props." + prop.lower())
    for w in getattr(module, "WARM", ()):
        if w not in warmed:
            warmed.add(w)
            try:
                build.warm((w,))
            except Exception as e:
                pass
    for f in core.REGISTRY[prop]:
        t = time.monotonic()
        r = core.run_shard(f, core.derive_seed(7, prop, f.name), max(least, int(f.quick * fraction)), t + seconds, 0.0, os.path.join(core.WORK, "case.json"))
        if r["failure"]:
            with open(sys.argv[2], "w") as h: json.dump({"killed": prop, "facet": f.name, "message": r["failure"]["message"][:200], "s": time.monotonic() - start}, h)
            os._exit(0)
with open(sys.argv[2], "w") as h: json.dump({"killed": None, "s": time.monotonic() - start}, h)
os._exit(0)
''' % HERE


def order(module):
    first = FIRST[module].split()
    if module in ONLY:
        return ONLY[module].split()
    return first + [p for p in LATER.split() if p not in first and p not in ("C27", "C28", "C26")]


def try_one(site, slot, fraction=0.08, seconds=12.0, least=12, limit=900):
    base = "%s/w%d" % (BASE, slot)
    repo = base + "/repo"
    if not os.path.isdir(repo):
        os.makedirs(base, exist_ok=True)
        subprocess.run(["git", "clone", "-q", REPO, repo], check=True)
        os.makedirs(base + "/work", exist_ok=True)
    path = "%s/pterasoftware/%s.py" % (repo, site["module"])
    source = open("%s/pterasoftware/%s.py" % (REPO, site["module"])).read().encode()
    assert source[site["a"]:site["b"]].decode() == site["old"]
    new = source[: site["a"]] + site["new"].encode() + source[site["b"]:]
    numba_changed = site["module"] in ("aerodynamics", "functions")
    cache = base + ("/numba-%d" % os.getpid() if numba_changed else "/numba")
    try:
        compile(new, path, "exec")
    except SyntaxError:
        return {"killed": "syntax"}
    open(path, "wb").write(new)
    env = dict(os.environ, PYTHONPATH=repo, PTERA_REPO=repo, PTERA_WORK=base + "/work", NUMBA_CACHE_DIR=cache, MPLCONFIGDIR=base + "/mpl",
               HOME=base, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", PYVISTA_OFF_SCREEN="true", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", MKL_NUM_THREADS="1")
    result = base + "/result.json"
    if os.path.exists(result):
        os.remove(result)
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-B", "-W", "ignore", "-c", CHILD, json.dumps([order(site["module"]), fraction, seconds, least]), result],
                           env=env, cwd=base + "/work", stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
        out = json.load(open(result)) if os.path.exists(result) else {"killed": "crash", "message": p.stderr.decode()[-300:]}
    except subprocess.TimeoutExpired:
        out = {"killed": "timeout"}
    finally:
        open(path, "wb").write(source)
        if numba_changed:
            shutil.rmtree(cache, ignore_errors=True)
    return out


def main():
    if sys.argv[1] == "list":
        for s in sites():
            print(s["id"], s["where"], repr(s["old"][:60]), "->", repr(s["new"][:60]))
        return
    wanted = [l.split()[0] for l in open(sys.argv[2]) if l.strip()]
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 6
    table = {s["id"]: s for s in sites()}
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {json.loads(l)["id"] for l in open(sys.argv[3])}
    wanted = [w for w in wanted if w in table and w not in done]
    procs = []
    for k in range(workers):
        pid = os.fork()
        if pid == 0:
            for w in wanted[k::workers]:
                r = try_one(table[w], k, fraction=float(os.environ.get("MUT_FRACTION", "0.08")), seconds=float(os.environ.get("MUT_SECONDS", "12")))
                r.update({n: table[w][n] for n in ("id", "where", "old", "new")})
                with open(sys.argv[3], "a") as h:
                    h.write(json.dumps(r) + "\n")
            os._exit(0)
        procs.append(pid)
    for p in procs:
        os.waitpid(p, 0)


main()
