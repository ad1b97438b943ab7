"""mutate.py FILE N SEED OUT JOBS: sample N mutants of FILE and run checks, then the tests on the survivors."""
import ast, copy, random, sys, os, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
MAP = {
 "state.py": ["C01", "C02", "C03", "C12"], "evolution.py": ["C06", "C08", "C09", "C10", "C11", "C13", "C07", "C12"],
 "topology/adjacency.py": ["C04"], "topology/networks.py": ["C05", "C03", "C04"], "substitution_system.py": ["C14"],
 "asynchronous_rule.py": ["C15"], "reversible_rule.py": ["C16"], "turing_machine.py": ["C17"], "wolfram_physics_model.py": ["C18"],
 "ctrbl_rule.py": ["C19"], "langtons_loop.py": ["C19"], "rules/activity_rule.py": ["C20"], "sandpile.py": ["C21"], "hopfield_net.py": ["C22"],
 "fungal_growth_model.py": ["C23"], "rule_tables.py": ["C24"], "analysis.py": ["C25"], "turtle.py": ["C26"], "utils.py": ["C27", "C26", "C30"],
 "hopfield_tank_tsp_net.py": ["C28"], "vis/vis_utils.py": ["C29"], "hexplot.py": ["C30"]}
SKIP = ()
f, n, seed, out, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], int(sys.argv[5])
src = open("/repo/netomaton/" + f).read()
tree = ast.parse(src)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add, ast.Pow: ast.Mult, ast.BitXor: ast.BitOr}
muts = []
def walk(node, path, fn, inraise):
    if isinstance(node, ast.FunctionDef):
        fn = node.name
        if fn.startswith(SKIP): return
    if isinstance(node, ast.Raise): inraise = True
    if not inraise:
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP: muts.append((path, "cmp", node.lineno, fn))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN and not (isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)): muts.append((path, "bin", node.lineno, fn))
        if isinstance(node, ast.BoolOp): muts.append((path, "bool", node.lineno, fn))
        if isinstance(node, ast.Constant) and type(node.value) is int: 
            muts.append((path, "inc", node.lineno, fn)); muts.append((path, "dec", node.lineno, fn))
        if isinstance(node, ast.Constant) and type(node.value) is bool: muts.append((path, "flip", node.lineno, fn))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)): muts.append((path, "unary", node.lineno, fn))
        if isinstance(node, (ast.If, ast.IfExp)): muts.append((path, "true", node.lineno, fn)); muts.append((path, "false", node.lineno, fn))
        if isinstance(node, (ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)) or (isinstance(node, ast.Assign) and not isinstance(node.targets[0], ast.Name)):
            muts.append((path, "del", node.lineno, fn))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("list", "sorted", "tuple", "dict", "set", "reversed", "check_np", "deepcopy", "int", "float") and len(node.args) == 1 and not node.keywords:
            muts.append((path, "unwrap", node.lineno, fn))
    for k, v in ast.iter_fields(node):
        if isinstance(v, ast.AST): walk(v, path + [(k, None)], fn, inraise)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, ast.AST): walk(x, path + [(k, i)], fn, inraise)
walk(tree, [], None, False)
def apply(m):
    t = copy.deepcopy(tree)
    path, kind = m[0], m[1]
    par = None; node = t
    for k, i in path:
        par = (node, k, i)
        node = getattr(node, k) if i is None else getattr(node, k)[i]
    def repl(x):
        p, k, i = par
        if i is None: setattr(p, k, x)
        else: getattr(p, k)[i] = x
    before = ast.unparse(node)[:90]
    if kind == "cmp": node.ops[0] = CMP[type(node.ops[0])]()
    elif kind == "bin": node.op = BIN[type(node.op)]()
    elif kind == "bool": node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind == "inc": repl(ast.Constant(node.value + 1)); node = ast.Constant(node.value + 1)
    elif kind == "dec": repl(ast.Constant(node.value - 1)); node = ast.Constant(node.value - 1)
    elif kind == "flip": repl(ast.Constant(not node.value)); node = ast.Constant(not node.value)
    elif kind == "unary": repl(node.operand); node = node.operand
    elif kind == "true": node.test = ast.Constant(True)
    elif kind == "false": node.test = ast.Constant(False)
    elif kind == "del": repl(ast.Pass()); node = ast.Pass()
    elif kind == "unwrap": repl(node.args[0]); node = node.args[0]
    ast.fix_missing_locations(t)
    return ast.unparse(t), before, ast.unparse(node)[:90]
random.Random(seed).shuffle(muts)
if n: muts = muts[:n]
print(f, len(muts), "mutants", flush=True)
def one(m):
    try:
        code, b, a = apply(m)
    except Exception as e:
        return
    tmp = tempfile.mkdtemp(prefix="mut_")
    copyd = tmp + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", copyd], check=True)
        open(copyd + "/netomaton/" + f, "w").write(code)
        desc = "%s:%d %s [%s] %s => %s" % (f, m[2], m[3], m[1], b.replace("\n", " "), a.replace("\n", " "))
        for c in MAP[f]:
            try:
                r = subprocess.run(["python3", "/verif/check.py", c], cwd="/verif", env=dict(os.environ, VERIF_REPO=copyd, VERIF_EVID=tmp), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc == 1:
                res = "KILLED %s" % c; break
            if rc != 0:
                res = "MACHINERY %s rc=%s %s" % (c, rc, r.stderr[-300:] + r.stdout[-300:]); break
        else:
            env = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                       NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
            try:
                import xml.etree.ElementTree as ET
                xml = tmp + "/j.xml"
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "3", "--dist", "worksteal",
                            "-W", "ignore", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + xml, "tests"],
                           cwd=copyd, env=env, capture_output=True, text=True, timeout=600)
                passed = set("%s::%s" % (c.get("classname"), c.get("name")) for c in ET.parse(xml).getroot().iter("testcase")
                             if all(c.find(x) is None for x in ("failure", "error", "skipped")))
                bad = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
            except subprocess.TimeoutExpired:
                bad = ["timeout"]
            res = "TESTS-ONLY %s" % bad[:1] if bad else "SURVIVED"
        with open(out, "a") as o: o.write(res + " | " + desc + "\n")
    finally:
        shutil.rmtree(tmp, True)
with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, muts))
