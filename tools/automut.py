"""automut.py OUT.jsonl N [seed] [file,file...]: plant N random mutants in scratch clones and see which checks notice.

Only an aid to find blind spots: survivors are judged by hand (most are equivalent or outside the properties)."""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

CHECKS = {
 "pyecloud_saver.py": "C05 C03 C04 C01 C11 C13 C06 C09 C02",
 "buildup_simulation.py": "C19 C17 C05 C02 C04 C18 C20 C11 C03",
 "MP_system.py": "C08 C06 C20 C07 C15 C02",
 "impact_management_class.py": "C05 C06 C25 C07 C22 C09 C04 C24",
 "beam_and_timing.py": "C19 C27 C17 C02 C20 C10",
 "space_charge_class.py": "C17 C23 C12 C14 C02",
 "space_charge_class_electromagnetic.py": "C17 C12 C02",
 "cross_ionization.py": "C18 C02 C10 C09",
 "gas_ionization_class.py": "C20 C02",
 "gen_photoemission_class.py": "C20 C02",
 "PyEC4PyHT.py": "C23 C15 C16 C14 C21",
 "Transverse_Efield_map_for_frozen_cloud.py": "C21",
 "sec_emission_model_ECLOUD_nunif.py": "C25 C22 C05 C06 C07 C09",
 "sec_emission_model_furman_pivi.py": "C25 C06 C07 C05 C09 C10",
 "sec_emission_model_ECLOUD.py": "C25 C06 C07 C05 C09",
 "sec_emission_model_accurate_low_ene.py": "C25 C06", "sec_emission_model_cos_low_ener.py": "C25 C06",
 "sec_emission_model_flat_low_ener.py": "C25 C06", "sec_emission_model_from_file.py": "C25 C06", "sec_emission_model_perfect_absorber.py": "C25 C06",
 "electron_emission.py": "C25 C20 C06 C07 C05 C10",
 "cloud_manager.py": "C05 C17 C20 C18 C06 C26",
 "init.py": "C05 C17 C20 C18 C26 C27 C25 C06 C19 C22 C09 C02",
 "geom_impact_poly_fast_impact.py": "C24 C20 C07 C06 C05 C22",
 "geom_impact_poly.py": "C24 C20 C07 C06",
 "geom_impact_ellip.py": "C24 C20 C07 C06 C05",
 "geom_impact_rect_fast_impact.py": "C24 C20 C07 C06 C05",
 "dynamics_Boris_f2py.py": "C26 C17 C23 C02 C06", "dynamics_dipole.py": "C26 C17 C02 C06", "dynamics_Boris_multipole.py": "C26 C17 C23 C02",
 "dynamics_strong_B_generalized.py": "C26 C17", "BassErsk.py": "C27", "sincc_cosincc_cubsincc.py": "C26",
 "parse_beam_file.py": "C27 C19 C17 C20", "myfilemanager.py": "C10 C05",
}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not"}
XY = [("x", "y"), ("vx", "vy"), ("Ex", "Ey"), ("x_mp", "y_mp"), ("vx_mp", "vy_mp"), ("vz_mp", "vy_mp"), ("efx", "efy")]


def skip(node):
    return isinstance(node, ast.Expr) and (isinstance(node.value, ast.Constant) or (isinstance(node.value, ast.Call) and getattr(node.value.func, "id", "") == "print"))


def sites(src):
    t = ast.parse(src)
    out = []
    par = {}
    for n in ast.walk(t):
        for c in ast.iter_child_nodes(n):
            par[c] = n

    def dead(n):
        while n is not None:
            if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.arguments)) or skip(n):
                return True
            n = par.get(n)
        return False
    for n in ast.walk(t):
        if not hasattr(n, "lineno") or dead(n):
            continue
        r = lambda n=n: ast.get_source_segment(src, n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            out.append((n, "%s %s %s" % (ast.unparse(n.left), SYM[SWAP[type(n.ops[0])]], ast.unparse(n.comparators[0]))))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not isinstance(n.left, ast.Constant):
            out.append((n, "(%s %s %s)" % (ast.unparse(n.left), OPS[type(n.op)], ast.unparse(n.right))))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n, str(not n.value)))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((n, repr(n.value + 1 if n.value in (0, 1, -1) else n.value * 1.3)))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            out.append((n, ast.unparse(n.func.value)))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                pass
            else:
                out.append((n, "pass"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append((n.test, "not (%s)" % ast.unparse(n.test)))
            out.append((n.test, "True")), out.append((n.test, "False"))
        elif isinstance(n, ast.BoolOp):
            out.append((n, "(%s)" % ((" or " if isinstance(n.op, ast.And) else " and ").join(ast.unparse(v) for v in n.values))))
            out.append((n, ast.unparse(n.values[0])))
        elif isinstance(n, ast.Attribute):
            for a, b in XY:
                if n.attr == a:
                    out.append((n, "%s.%s" % (ast.unparse(n.value), b)))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for a, b in XY:
                if n.id == a:
                    out.append((n, b))
    return out


def span(src, n):
    ls = src.encode().split(b"\n")
    off = [0]
    for l in ls:
        off.append(off[-1] + len(l) + 1)
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


def main():
    out, N = sys.argv[1], int(sys.argv[2])
    r = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 0)
    files = sys.argv[4].split(",") if len(sys.argv) > 4 else list(CHECKS)
    W = int(os.environ.get("AUTOMUT_WORKERS", "4"))
    runs, cap = os.environ.get("AUTOMUT_RUNS", "70"), os.environ.get("AUTOMUT_CAP", "40")
    q = Queue()
    for i in range(W):
        d = "/tmp/p/mm%d" % i
        if not os.path.isdir(d):
            subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=d, check=True)
        q.put(d)
    pool = []
    src = {f: open("/repo/" + f).read() for f in files}
    for f in files:
        pool += [(f, n, new) for n, new in sites(src[f])]
    if "AUTOMUT_LINES" in os.environ:
        lo, hi = map(int, os.environ["AUTOMUT_LINES"].split("-"))
        pool = [p for p in pool if lo <= p[1].lineno <= hi]
    r.shuffle(pool)
    print("sites", len(pool), flush=True)

    def one(m):
        f, n, new = m
        b = src[f].encode()
        i, j = span(src[f], n)
        mut = b[:i] + new.encode() + b[j:]
        try:
            ast.parse(mut)
        except SyntaxError:
            return
        d = q.get()
        rec = dict(file=f, line=n.lineno, old=b[i:j].decode()[:160], new=new[:160], text=src[f].splitlines()[n.lineno - 1].strip()[:160])
        try:
            with open(d + "/" + f, "wb") as g:
                g.write(mut)
            env = dict(os.environ, VERIF_REPO=d, VERIF_RUNS=runs, VERIF_CAP=cap, VERIF_SHRINK="0", VERIF_JOBS=os.environ.get("AUTOMUT_JOBS", "2"),
                       VERIF_EVIDENCE=d + ".ev", VERIF_REPLAYS=d + ".rp")
            res = {}
            for c in CHECKS[f].split():
                p = subprocess.run(["python3", "check.py", "run", c], cwd=os.environ.get("AUTOMUT_VERIF", "/verif"), env=env, capture_output=True, text=True)
                what = [l for l in p.stdout.splitlines() if l.startswith("violated")]
                res[c] = p.returncode
                if p.returncode:
                    rec["what"] = (what or p.stdout.strip().splitlines()[-3:] or [p.stderr[-300:]])[0][:200]
                    break
            rec["res"] = res
            rec["killed"] = 1 in res.values()
        finally:
            subprocess.run("git checkout -q -- .", shell=True, cwd=d)
            q.put(d)
        with open(out, "a") as g:
            g.write(json.dumps(rec) + "\n")
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, pool[:N]))


main()
