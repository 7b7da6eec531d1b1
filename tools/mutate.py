#!/usr/bin/env python3
"""Bulk mutation of /repo/src: which small changes does no check notice?

usage: mutate.py OUT.jsonl [-j N] [-m MAX_PER_FILE] [-s SEED] FILE...
Works on copies of /repo and /verif under /tmp/mut; /repo and /verif stay as they are.
"""
import warnings; warnings.simplefilter("ignore")
import argparse, ast, json, os, random, re, shutil, subprocess, threading, queue, time

MAP = {
 'data_generators/publisher_data': 'C01 C02 C03', 'data_generators/data_set.py': 'C02 C03',
 'data_generators/data_design.py': 'C03', 'models/reach_point': 'C04 C02', 'simulator/privacy_tracker': 'C05',
 'simulator/halo_simulator': 'C22 C21 C06', 'simulator/m3_strategy': 'C28 C06', 'simulator/single_publisher_strategy': 'C28 C06',
 'simulator/planner_simulator': 'C27 C06', 'simulator/publisher': 'C27 C22 C21', 'simulator/system_parameters': 'C26 C22 C06',
 'simulator/modeling_strategy': 'C28 C26', 'models/goerg': 'C09', 'models/reach_curve': 'C08 C09', 'models/reach_surface': 'C13 C14 C15',
 'models/gamma_poisson': 'C10 C30', 'models/kinflated': 'C09 C11 C30', 'models/dirac': 'C12', 'models/pairwise': 'C13', 'models/restricted': 'C14',
 'models/generalized': 'C15', 'models/ground_truth': 'C27', 'overlap_data_set': 'C17', 'synthetic_data_design': 'C18', 'data_set_parameters': 'C18',
 'lhs_data_design': 'C18', 'm3_data_design': 'C18', 'simple_data_design': 'C18', 'data_generators/single_publisher_design': 'C18', 'analysis_example_data': 'C18',
 '_generator.py': 'C16', 'driver/experiment_driver': 'C24', 'driver/experiment.py': 'C23 C24', 'driver/experimental_design': 'C24', 'driver/experimental_trial': 'C29 C23',
 'test_point_generator': 'C19', 'driver/experiment_parameters': 'C26 C19', 'test_point_aggregator': 'C20 C29', 'filesystem': 'C25',
 'driver/trial_descriptor': 'C26', 'modeling_strategy_descriptor': 'C26', 'sample_experimental': 'C26', 'm3_first': 'C26', 'driver/single_publisher_design': 'C26', 'analysis_example_exp': 'C26'}


def checks_for(f):
    for k in sorted(MAP, key=len, reverse=True):
        if k in f and not (k == '_generator.py' and 'test_point' in f):
            return MAP[k].split()
    return []


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def rep(n, new):
        s, e = pos(n)
        out.append((n.lineno, s, e, new))
    seg = lambda n: b[slice(*pos(n))].decode()
    CM = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    BM = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Pow: '*', ast.Mod: '*'}
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            a = getattr(n, 'args', None)
            if a:
                for x in a.args + a.kwonlyargs:
                    if x.annotation:
                        skip.update(id(y) for y in ast.walk(x.annotation))
            if getattr(n, 'returns', None):
                skip.update(id(y) for y in ast.walk(n.returns))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            skip.update(id(y) for y in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, f"({seg(n.left)}) {CM[type(n.ops[0])]} ({seg(n.comparators[0])})")
        elif isinstance(n, ast.BinOp) and type(n.op) in BM:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            rep(n, f"(({seg(n.left)}) {BM[type(n.op)]} ({seg(n.right)}))")
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + j.join('(' + seg(v) + ')' for v in n.values) + ')')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v))
            elif isinstance(v, int):
                rep(n, str(v + 1))
                if v > 0: rep(n, str(v - 1))
            elif isinstance(v, float):
                rep(n, repr(v * 1.25 if v else 0.25))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, f"(not ({seg(n.test)}))")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(' + seg(n.operand) + ')')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            rep(n, 'pass')
        elif isinstance(n, ast.AugAssign):
            rep(n, 'pass')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript,)):
            rep(n, 'pass')
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
            sw = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'sum': 'max', 'sorted': 'list', 'set': 'list', 'int': 'float', 'cumsum': 'cumprod', 'zeros': 'ones', 'mean': 'median', 'any': 'all', 'all': 'any', 'union': 'intersection', 'append': 'count'}
            if nm in sw:
                if isinstance(f, ast.Name):
                    rep(f, sw[nm])
                else:
                    rep(f, seg(f.value) + '.' + sw[nm])
            if nm in ('deepcopy', 'copy', 'abs', 'round', 'int', 'list', 'floor') and len(n.args) == 1:
                rep(n, '(' + seg(n.args[0]) + ')')
            for k in n.keywords:
                if k.arg:
                    s, e = pos(k)
                    e2 = e
                    while b[e2:e2 + 1] in (b' ', b'\n'): e2 += 1
                    if b[e2:e2 + 1] == b',': e = e2 + 1
                    out.append((k.lineno, s, e, ''))
    res = []
    for ln, s, e, new in sorted(set(out)):
        m = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((ln, b[s:e].decode()[:90], new[:90], m))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('-j', type=int, default=6); ap.add_argument('-m', type=int, default=60)
    ap.add_argument('-s', type=int, default=0); ap.add_argument('-t', type=int, default=400); ap.add_argument('files', nargs='*')
    ap.add_argument('--also', default='')
    a = ap.parse_intermixed_args()
    root = '/tmp/mut'
    q = queue.Queue()
    rnd = random.Random(a.s)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l); done.add((d['file'], d['line'], d['old'], d['new']))
    n = 0
    for f in a.files:
        ms = mutants('/repo/src/' + f)
        rnd.shuffle(ms)
        for m in ms[:a.m]:
            if (f, m[0], m[1], m[2]) not in done:
                q.put((f,) + m); n += 1
    print(n, 'mutants', flush=True)
    lock = threading.Lock()

    def work(i):
        d = f'{root}/w{i}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree('/verif', d + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', '__pycache__'))
        os.makedirs(d + '/verif/evidence', exist_ok=True)
        s = open(d + '/verif/run.sh').read().replace('/repo/src', d + '/src')
        open(d + '/verif/run.sh', 'w').write(s)
        env = dict(os.environ, VERIF_SEED='1', VERIF_TIER="quick", VERIF_WORKERS="2")
        while True:
            try:
                f, ln, old, new, text = q.get_nowait()
            except queue.Empty:
                break
            p = f'{d}/src/{f}'
            open(p, 'w').write(text)
            res = 'survived'; t0 = time.time(); rcs = []
            for c in checks_for(f) + a.also.split():
                try:
                    r = subprocess.run(['timeout', '-k', '5', str(a.t), 'bash', d + '/verif/run.sh', c], capture_output=True, text=True, env=env)
                    rc = r.returncode
                except Exception as e:
                    rc = 99
                rcs.append((c, rc))
                if rc == 1:
                    res = 'killed'; break
            if res != 'killed' and any(rc not in (0, 1) for _, rc in rcs):
                res = 'error'
            shutil.copy('/repo/src/' + f, p)
            with lock:
                open(a.out, 'a').write(json.dumps(dict(file=f, line=ln, old=old, new=new, res=res, rcs=rcs, t=round(time.time() - t0))) + '\n')
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.j)]
    [t.start() for t in ts]; [t.join() for t in ts]


main()
