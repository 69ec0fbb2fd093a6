"""
Mutation analysis of the checks (not part of any check): changes the library in one place at a time.

  mutants.py start DIR            copies what is worked on to DIR
  mutants.py cover DIR            which lines of the library are run by which tasks of which check
  mutants.py test DIR [PER]       mutants that pass the existing tests, PER for each function
  mutants.py check DIR            runs the tasks of checks that run the changed line on each survivor

Results are in DIR: survivors.jsonl, verdicts.jsonl.
"""
import ast
import glob
import hashlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import time

PYTHON = "/opt/venv/bin/python"
REPO = os.path.abspath(sys.argv[2] if len(sys.argv) > 2 else ".") + "/repo"
VERIF = os.path.dirname(REPO) + "/verif"
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in"}
PAIRS = [("lower", "upper"), ("min", "max"), ("provided", "required"), ("inner", "outer"), ("p_port", "r_port"), ("first", "last"),
         ("numerator", "denominator"), ("int_to_phys", "phys_to_int"), ("source", "target"), ("short", "long"), ("init", "invalid")]


class Finder(ast.NodeVisitor):
    """All mutants of one file: (line, name of the function, kind, start, end, new text)"""

    def __init__(self, text):
        self.text = text.encode()
        self.starts = [0]
        for line in self.text.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))
        self.names, self.found = [], []
        self.words = set(re.findall(r"\w+", text))
        self.visit(ast.parse(text))

    def span(self, node):
        return self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset

    def source(self, node):
        a, z = self.span(node)
        return self.text[a:z].decode()

    def add(self, node, kind, new, span=None):
        a, z = span or self.span(node)
        self.found.append((node.lineno, ".".join(self.names), kind, a, z, new))

    def visit_FunctionDef(self, node):
        self.names.append(node.name)
        for default in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            self.visit(default)
        body = node.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for stmt in body:
            self.visit(stmt)
        self.names.pop()

    def visit_ClassDef(self, node):
        self.names.append(node.name)
        for stmt in node.body:
            if not (isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant)):
                self.visit(stmt)
        self.names.pop()

    def visit_Raise(self, node):
        self.add(node, "raise", "pass")

    def visit_Assert(self, node):
        pass

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call):
            self.add(node, "call", "pass")
        self.generic_visit(node)

    def visit_Assign(self, node):
        name = self.source(node.targets[0])
        if name in ("msg", "error_msg", "err_msg") or isinstance(node.value, ast.JoinedStr):
            return
        if not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.add(node, "assign none", f"{name} = None")
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "augassign", "pass")

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.add(node, "return", "return None")
            self.generic_visit(node)

    def visit_Continue(self, node):
        self.add(node, "continue", "pass")

    def visit_Break(self, node):
        self.add(node, "break", "pass")

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            span = self.span(node.left)[1], self.span(node.comparators[0])[0]
            self.add(node, "compare", f" {SWAP[type(node.ops[0])]} ", span)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        for one, two in zip(node.values, node.values[1:]):
            self.add(node, "boolop", " or " if isinstance(node.op, ast.And) else " and ", (self.span(one)[1], self.span(two)[0]))
        for value in node.values:
            self.add(node, "operand", "True" if isinstance(node.op, ast.And) else "False", self.span(value))
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        self.add(node, "unary", "(" + self.source(node.operand) + ")")
        self.generic_visit(node)

    def visit_If(self, node):
        if not isinstance(node.test, (ast.Compare, ast.UnaryOp)):
            self.add(node, "if", "True", self.span(node.test))
            self.add(node, "if", "False", self.span(node.test))
        self.generic_visit(node)

    def visit_For(self, node):
        iterated = self.source(node.iter)
        self.add(node, "for", f"list({iterated})[:-1]", self.span(node.iter))
        self.add(node, "for", f"list({iterated})[1:]", self.span(node.iter))
        self.generic_visit(node)

    def visit_comprehension(self, node):
        iterated = self.source(node.iter)
        self.add(node.iter, "for", f"list({iterated})[:-1]")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.add(node, "bool", str(not node.value))
        elif isinstance(node.value, (int, float)):
            self.add(node, "number", str(node.value + 1))
        elif isinstance(node.value, str) and node.value and "\n" not in self.source(node):
            self.add(node, "string", repr(node.value + "X"))

    def visit_JoinedStr(self, node):
        self.add(node, "fstring", "'x'")

    def visit_BinOp(self, node):
        if isinstance(node.op, (ast.Add, ast.Sub)):
            new = " - " if isinstance(node.op, ast.Add) else " + "
            self.add(node, "binop", new, (self.span(node.left)[1], self.span(node.right)[0]))
        self.generic_visit(node)

    def visit_Call(self, node):
        for k, word in enumerate(node.keywords):
            if word.arg:
                a, z = self.span(word)
                nxt = node.keywords[k + 1:k + 2]
                self.add(node, "keyword", "", (a, self.span(nxt[0])[0] if nxt else z))
        for one, two in zip(node.args, node.args[1:]):
            if all(isinstance(x, (ast.Name, ast.Attribute)) for x in (one, two)):
                a, z = self.span(one), self.span(two)
                self.add(node, "swap", self.source(two) + self.text[a[1]:z[0]].decode() + self.source(one), (a[0], z[1]))
        self.visit(node.func)
        for arg in node.args:
            self.visit(arg)
        for word in node.keywords:
            self.visit(word.value)

    def other(self, name):
        for pair in PAIRS:
            for a, z in (pair, pair[::-1]):
                if a in name and name.replace(a, z) in self.words:
                    return name.replace(a, z)
        return None

    def visit_Attribute(self, node):
        new = self.other(node.attr)
        if new and isinstance(node.ctx, ast.Load):
            self.add(node, "name", self.source(node.value) + "." + new)
        self.generic_visit(node)

    def visit_Name(self, node):
        new = self.other(node.id)
        if new and isinstance(node.ctx, ast.Load):
            self.add(node, "name", new)


def all_mutants():
    for path in sorted(glob.glob(REPO + "/src/autosar/**/*.py", recursive=True)):
        if path.endswith("__init__.py"):
            continue
        with open(path, encoding="utf-8") as fh:
            finder = Finder(fh.read())
        for line, name, kind, a, z, new in finder.found:
            rel = path[len(REPO + "/src/autosar/"):]
            yield {"file": rel, "line": line, "name": name, "kind": kind, "span": [a, z], "new": new,
                   "old": finder.text[a:z].decode()}


def label(m):
    return hashlib.sha1(json.dumps([m["file"], m["span"], m["new"]]).encode()).hexdigest()[:10]


def workers(folder):
    """One copy of the repository per process"""
    copies = multiprocessing.Queue()
    for k in range(8):
        path = f"{folder}/copy{k}"
        if not os.path.exists(path):
            shutil.copytree(REPO, path, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        subprocess.run([PYTHON, "-m", "compileall", "-q", path + "/src", VERIF], check=False)
        copies.put(path)
    return copies


COPIES, FOLDER, COVER = None, None, None


def mutated(m, copy):
    path = f"{copy}/src/autosar/{m['file']}"
    with open(f"{REPO}/src/autosar/{m['file']}", "rb") as fh:
        text = fh.read()
    with open(path, "wb") as fh:
        fh.write(text[:m["span"][0]] + m["new"].encode() + text[m["span"][1]:])
    return path


def restore(m, copy):
    shutil.copy2(f"{REPO}/src/autosar/{m['file']}", f"{copy}/src/autosar/{m['file']}")


def environment(copy, **more):
    return {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "AUTOSAR_SRC": copy + "/src", "PYTHONPATH": copy + "/src", **more}


def test_one(m):
    copy = COPIES.get()
    try:
        mutated(m, copy)
        try:
            res = subprocess.run([PYTHON, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=copy,
                                 env=environment(copy), capture_output=True, timeout=60, check=False)
            return m, res.returncode == 0
        except subprocess.TimeoutExpired:
            return m, False
    finally:
        restore(m, copy)
        COPIES.put(copy)


def check_one(m):
    """-> verdict of the first check that notices"""
    copy = COPIES.get()
    tasks = f"{copy}/tasks.json"
    tried = []
    try:
        mutated(m, copy)
        all_of = COVER.get((m["file"], m["line"]), [])
        first = [(check, items[::len(items) // 3][:4]) for check, items in all_of if len(items) > 8]
        for check, items in first + all_of:
            with open(tasks, "w", encoding="utf-8") as fh:
                json.dump(items, fh)
            env = environment(copy, VERIF_TASKS=tasks, VERIF_JOBS="1", VERIF_EVIDENCE_DIR=copy + "/evidence")
            start = time.time()
            try:
                res = subprocess.run([VERIF + "/check", check], env=env, capture_output=True, text=True, timeout=900, check=False)
                code, out = res.returncode, res.stdout + res.stderr
            except subprocess.TimeoutExpired:
                code, out = "timeout", ""
            tried.append([check, code, len(items), round(time.time() - start, 1)])
            if code == 1:
                said = [x for x in out.splitlines() if x.startswith("  ")]
                return m, check, tried, (said or [out])[0][:300]
        return m, None, tried, ""
    finally:
        restore(m, copy)
        COPIES.put(copy)


def load_cover(folder):
    """(file, line) -> [(check, tasks)], quick ones first"""
    cover, total = {}, {}
    for path in glob.glob(f"{folder}/cover/C*.jsonl"):
        check = os.path.basename(path)[:3]
        with open(path, encoding="utf-8") as fh:
            for row in fh:
                call, k, lines = json.loads(row)
                total[check] = total.get(check, 0) + 1
                for file, line in lines:
                    cover.setdefault((file, line), {}).setdefault(check, []).append([call, k])
    costs = json.load(open(f"{folder}/cover/costs.json", encoding="utf-8"))
    return {where: sorted(checks.items(), key=lambda item: costs[item[0]] * len(item[1]) / total[item[0]])
            for where, checks in cover.items()}


def main():
    global COPIES, COVER   # pylint: disable=global-statement
    what, folder = sys.argv[1:3]
    os.makedirs(folder + "/cover", exist_ok=True)
    if what == "start":
        for path in ("/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))):
            shutil.rmtree(folder + "/" + os.path.basename(path), ignore_errors=True)
            shutil.copytree(path, folder + "/" + os.path.basename(path), ignore=shutil.ignore_patterns(
                ".git", "__pycache__", "evidence", "seeded"))
        return
    if what == "cover":
        costs = {}
        for path in sorted(glob.glob(VERIF + "/checks/C*.py")):
            check = os.path.basename(path)[:3]
            out = f"{folder}/cover/{check}.jsonl"
            if os.path.exists(out):
                os.remove(out)
            start = time.time()
            subprocess.run([VERIF + "/check", check], env={**os.environ, "VERIF_COVER": out, "AUTOSAR_SRC": REPO + "/src", "VERIF_EVIDENCE_DIR": folder + "/ev"},
                           check=False)
            costs[check] = time.time() - start
        json.dump(costs, open(f"{folder}/cover/costs.json", "w", encoding="utf-8"))
        return
    COPIES = workers(folder)
    if what == "test":
        per = int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
        done = set()
        if os.path.exists(folder + "/tested.jsonl"):
            done = {json.loads(x)[0] for x in open(folder + "/tested.jsonl", encoding="utf-8")}
        by_name = {}
        for m in all_mutants():
            by_name.setdefault((m["file"], m["name"]), []).append(m)
        todo = [m for ms in by_name.values() for m in sorted(ms, key=label)[:per] if label(m) not in done]
        print(len(todo), "mutants", flush=True)
        with multiprocessing.Pool(8) as pool, open(folder + "/tested.jsonl", "a", encoding="utf-8") as log, \
                open(folder + "/survivors.jsonl", "a", encoding="utf-8") as out:
            for m, good in pool.imap_unordered(test_one, todo):
                log.write(json.dumps([label(m), good]) + "\n")
                if good:
                    out.write(json.dumps(m) + "\n")
                    out.flush()
        return
    COVER = load_cover(folder)
    done = set()
    if os.path.exists(folder + "/verdicts.jsonl"):
        done = {label(json.loads(x)["mutant"]) for x in open(folder + "/verdicts.jsonl", encoding="utf-8")}
    with open(folder + "/survivors.jsonl", encoding="utf-8") as fh:
        todo = [m for m in map(json.loads, fh) if label(m) not in done]
    todo = [m for m in todo if not m["old"].startswith('"""')]
    todo.sort(key=lambda m: sum(len(items) for _, items in COVER.get((m["file"], m["line"]), [])))
    print(len(todo), "survivors", flush=True)
    with multiprocessing.Pool(8) as pool, open(folder + "/verdicts.jsonl", "a", encoding="utf-8") as out:
        for m, check, tried, text in pool.imap_unordered(check_one, todo):
            out.write(json.dumps({"mutant": m, "caught": check, "tried": tried, "text": text}) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
