#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo's whole source, one kind at a time, in scratch copies; the checks must stay quiet.
usage: quiet.py [kind,kind..] [Cxx ...]    -> one line per check"""
import ast, os, re, shutil, subprocess, sys, tempfile, time, copy
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ("tests", ".git", "docs")


def locals_of(fn):
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    st, bad = set(), set(args)
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            bad |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name)} | ({a.arg for a in n.args.args} if not isinstance(n, ast.ClassDef) else set())
            bad.add(getattr(n, "name", ""))
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            bad |= {(a.asname or a.name).split(".")[0] for a in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            st.add(n.id)
    src = ast.unparse(fn)
    if "locals()" in src or "eval(" in src or "exec(" in src:
        return set()
    return st - bad


class Rename(ast.NodeTransformer):
    """local variables get other names"""
    def visit_FunctionDef(self, fn):
        names = locals_of(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = n.id + "_q"
        return fn          # nested functions only use names that are left alone


class Noop(ast.NodeTransformer):
    """a statement that does nothing at the start and the end of every function"""
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body[k:k] = ast.parse("unused_marker = None").body
        return fn


class Result(ast.NodeTransformer):
    """return e  ->  result_q = e; return result_q"""
    def visit_Lambda(self, n):
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_q", ast.Store())], n.value, lineno=n.lineno), ast.Return(ast.Name("result_q", ast.Load()))]


class Flip(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A; a < b -> b > a (numbers and names only)"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in sw and not any(isinstance(m, (ast.Call, ast.Yield, ast.NamedExpr)) for m in ast.walk(n)):
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        return n


class Unroll(ast.NodeTransformer):
    """x = [e for a in s if c]  ->  an explicit loop with append"""
    k = 0

    def loop(self, comp, tgt):
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(tgt, ast.Load()), "append", ast.Load()), [comp.elt], []))]
        for g in reversed(comp.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [], lineno=1)]
        return [ast.Assign([ast.Name(tgt, ast.Store())], ast.List([], ast.Load()), lineno=1)] + body

    def visit_FunctionDef(self, fn):
        self.fn = fn
        self.names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {a.arg for a in fn.args.args}
        self.generic_visit(fn)
        return fn

    def ok(self, c):
        if not isinstance(c, ast.ListComp):
            return False
        t = {n.id for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        outer = [n for n in ast.walk(self.fn) if isinstance(n, ast.Name) and n.id in t]
        inner = [n for n in ast.walk(c) if isinstance(n, ast.Name) and n.id in t]
        return len(outer) == len(inner) and not any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(c) if n is not c)

    def visit_Assign(self, n):
        if hasattr(self, "fn") and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and self.ok(n.value):
            Unroll.k += 1
            t = "built_%d" % Unroll.k
            return self.loop(n.value, t) + [ast.Assign(n.targets, ast.Name(t, ast.Load()), lineno=1)]
        return n

    def visit_Return(self, n):
        if hasattr(self, "fn") and n.value is not None and self.ok(n.value):
            Unroll.k += 1
            t = "built_%d" % Unroll.k
            return self.loop(n.value, t) + [ast.Return(ast.Name(t, ast.Load()))]
        return n

    def visit_Lambda(self, n):
        return n


class Enum(ast.NodeTransformer):
    """for x in xs: -> for index_q, x in enumerate(xs):"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        Enum.k += 1
        n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
        n.target = ast.Tuple([ast.Name("index_%d" % Enum.k, ast.Store()), n.target], ast.Store())
        return n


class Comp(ast.NodeTransformer):
    """res = []; for a in s: res.append(e)  ->  res = [e for a in s]"""
    def seq(self, body):
        out, i = [], 0
        while i < len(body):
            a, b = body[i], body[i + 1] if i + 1 < len(body) else None
            if (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List) and not a.value.elts
                    and isinstance(b, ast.For) and not b.orelse and len(b.body) == 1):
                inner, ifs = b.body[0], []
                if isinstance(inner, ast.If) and not inner.orelse and len(inner.body) == 1:
                    ifs, inner = [inner.test], inner.body[0]
                if (isinstance(inner, ast.Expr) and isinstance(inner.value, ast.Call) and ast.unparse(inner.value.func) == a.targets[0].id + ".append"
                        and not any(isinstance(m, ast.Name) and m.id == a.targets[0].id for q in [inner.value.args[0]] + ifs + [b.iter] for m in ast.walk(q))):
                    out.append(ast.Assign(a.targets, ast.ListComp(inner.value.args[0], [ast.comprehension(b.target, b.iter, ifs, 0)]), lineno=1))
                    i += 2
                    continue
            out.append(a)
            i += 1
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse"):
            if isinstance(getattr(n, f, None), list):
                setattr(n, f, self.seq(getattr(n, f)))
        return n


class Extract(ast.NodeTransformer):
    """the iterable / value of every simple assignment in a function goes through a module-level identity helper"""
    def visit_Module(self, n):
        self.generic_visit(n)
        k = 0
        while k < len(n.body) and (isinstance(n.body[k], (ast.Import, ast.ImportFrom)) or isinstance(n.body[k], ast.Expr)):
            k += 1
        n.body[k:k] = ast.parse("def same_value_q(v):\n    return v").body
        return n

    def visit_FunctionDef(self, fn):
        self.inside = True
        self.generic_visit(fn)
        self.inside = False
        return fn

    def visit_Assign(self, n):
        if getattr(self, "inside", False) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and not any(isinstance(m, (ast.Yield, ast.YieldFrom)) for m in ast.walk(n)):
            n.value = ast.Call(ast.Name("same_value_q", ast.Load()), [n.value], [])
        return n


class Guard(ast.NodeTransformer):
    """if c: A else: B, where A ends in return/raise/continue/break  ->  if c: A;  B   (and an if without else at the end of a for body -> continue guard)"""
    def seq(self, body, loop):
        out = []
        for i, a in enumerate(body):
            if isinstance(a, ast.If) and a.orelse and isinstance(a.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                out += [ast.If(a.test, a.body, [])] + a.orelse
            elif loop and i == len(body) - 1 and isinstance(a, ast.If) and not a.orelse:
                out += [ast.If(ast.UnaryOp(ast.Not(), a.test), [ast.Continue()], [])] + a.body
            else:
                out.append(a)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse"):
            if isinstance(getattr(n, f, None), list):
                setattr(n, f, self.seq(getattr(n, f), isinstance(n, (ast.For, ast.While)) and f == "body"))
        return n


class Aug(ast.NodeTransformer):
    """x += 1 -> x = x + 1 (numeric constants), while c: -> while True: if not c: break"""
    def visit_AugAssign(self, n):
        if isinstance(n.value, ast.Constant) and isinstance(n.value.value, (int, float)) and isinstance(n.target, (ast.Name, ast.Attribute)):
            l = copy.deepcopy(n.target)
            l.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(l, n.op, n.value), lineno=1)
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or (isinstance(n.test, ast.Constant)):
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


class Accum(ast.NodeTransformer):
    """x = sum/any/all over a comprehension -> an explicit loop (also as the value of return)"""
    k = 0

    def visit_FunctionDef(self, fn):
        self.fn = fn
        self.generic_visit(fn)
        return fn

    def visit_Lambda(self, n):
        return n

    def make(self, v):
        if not (hasattr(self, "fn") and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("sum", "any", "all") and len(v.args) == 1 and not v.keywords
                and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) and len(v.args[0].generators) == 1):
            return None
        c = v.args[0]
        t = {n.id for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        outer = [n for n in ast.walk(self.fn) if isinstance(n, ast.Name) and n.id in t]
        inner = [n for n in ast.walk(c) if isinstance(n, ast.Name) and n.id in t]
        if len(outer) != len(inner) or any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(c) if n is not c):
            return None
        Accum.k += 1
        x = "acc_%d" % Accum.k
        if v.func.id == "sum":
            body = [ast.AugAssign(ast.Name(x, ast.Store()), ast.Add(), c.elt)]
            init = ast.Constant(0)
        else:
            test = c.elt if v.func.id == "any" else ast.UnaryOp(ast.Not(), c.elt)
            body = [ast.If(test, [ast.Assign([ast.Name(x, ast.Store())], ast.Constant(v.func.id == "any"), lineno=1), ast.Break()], [])]
            init = ast.Constant(v.func.id != "any")
        for f in reversed(c.generators[0].ifs):
            body = [ast.If(f, body, [])]
        return [ast.Assign([ast.Name(x, ast.Store())], init, lineno=1), ast.For(c.generators[0].target, c.generators[0].iter, body, [], lineno=1)], ast.Name(x, ast.Load())

    def visit_Assign(self, n):
        m = self.make(n.value)
        if m is None:
            return n
        n.value = m[1]
        return m[0] + [n]

    def visit_Return(self, n):
        m = self.make(n.value) if n.value is not None else None
        if m is None:
            return n
        n.value = m[1]
        return m[0] + [n]

    def visit_If(self, n):
        self.generic_visit(n)
        neg = isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not)
        m = self.make(n.test.operand if neg else n.test)
        if m is None:
            return n
        n.test = ast.UnaryOp(ast.Not(), m[1]) if neg else m[1]
        return m[0] + [n]


class Whiler(ast.NodeTransformer):
    """for i in range(n): -> i = 0; while i < n: ...; i += 1 (without continue)"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 and isinstance(n.target, ast.Name)
                and n.target.id != "_" and not n.orelse and not any(isinstance(m, ast.Continue) for m in ast.walk(n))
                and not any(isinstance(m, ast.Name) and m.id == n.target.id and isinstance(m.ctx, ast.Store) for b in n.body for m in ast.walk(b))):
            Whiler.k += 1
            e = "end_%d" % Whiler.k
            i = n.target.id
            return [ast.Assign([ast.Name(e, ast.Store())], n.iter.args[0], lineno=1), ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0), lineno=1),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                              n.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return n


KINDS = dict(whiler=Whiler, accum=Accum, rename=Rename, noop=Noop, result=Result, flip=Flip, unroll=Unroll, enum=Enum, comp=Comp, extract=Extract, guard=Guard, aug=Aug)


def apply(kind, w):
    n = 0
    for d, ds, fs in os.walk(w):
        ds[:] = [x for x in ds if x not in SKIP]
        for f in fs:
            if not f.endswith(".py") or f.startswith("test"):
                continue
            p = os.path.join(d, f)
            src = open(p).read()
            if kind == "comment":
                open(p, "a").write("\n# a comment\n")
                n += 1
                continue
            t = ast.parse(src)
            a = ast.dump(t)
            t = ast.fix_missing_locations(KINDS[kind]().visit(t))
            if ast.dump(t) != a:
                open(p, "w").write(ast.unparse(t) + "\n")
                n += 1
    return n


def one(a):
    kind, prop, w = a
    t = time.time()
    p = subprocess.run(["python3-vt", VERIF + "/check.py", prop, "quick"], cwd=VERIF, capture_output=True, text=True, env=dict(os.environ, PYDV_REPO=w, VERIF_SEED="1", VERIF_TIER="quick", PYDV_EVIDENCE=w + ".ev"))
    out = p.stdout.splitlines()
    print("%-8s %s %s rc=%d %.0fs %s" % ("quiet" if p.returncode == 0 else "ALARM", kind, prop, p.returncode, time.time() - t, "\n      ".join([l[:400] for l in out if not l.startswith("KNOWN")] + ([p.stderr[-500:]] if p.returncode not in (0, 1) else []))), flush=True)


def main():
    kinds = sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] != "all" else ["comment"] + list(KINDS)
    props = sys.argv[2:] or ["C%02d" % k for k in range(1, 19)]
    for kind in kinds:
        w = tempfile.mkdtemp(prefix="quiet_%s_" % kind, dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo/.", w], check=True)
            n = apply(kind, w)
            bad = subprocess.run(["/opt/venv/bin/python", "-m", "compileall", "-q", "-x", "tests|\\.git", w], capture_output=True, text=True)
            print("==", kind, n, "files", "compile rc=%d %s" % (bad.returncode, bad.stdout[-300:]), flush=True)
            with ThreadPoolExecutor(3) as ex:
                list(ex.map(one, [(kind, p, w) for p in props]))
        finally:
            shutil.rmtree(w)
            shutil.rmtree(w + ".ev", ignore_errors=True)


main()
