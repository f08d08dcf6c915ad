"""Which lines and branches of PyNite do the checks reach?  (development aid; used by no check)

usage: python3 tools/cov.py [CASES]   -- prints, per file, lines never run and branches that always go the same way"""
import sys, os, json, importlib, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True


def one(a):
    pid, n = a
    from rv import env, core
    env.check_import()
    importlib.import_module(f"rv.checks.{pid.lower()}")
    core._init()
    M = sys.monitoring
    lines, br = {}, {}
    M.use_tool_id(1, "cov")

    def own(c):
        return "/PyNite/" in c.co_filename

    def line(c, l):
        if own(c):
            lines.setdefault(os.path.basename(c.co_filename), set()).add(l)
        return M.DISABLE

    def branch(c, src, dst):
        if not own(c):
            return M.DISABLE
        k = (os.path.basename(c.co_filename), c.co_name, c.co_firstlineno, src)
        s = br.setdefault(k, set())
        s.add(dst)
        if len(s) > 1:
            return M.DISABLE
    M.register_callback(1, M.events.LINE, line)
    M.register_callback(1, M.events.BRANCH, branch)
    M.set_events(1, M.events.LINE | M.events.BRANCH)
    chk = core.CHECKS[pid]
    for i in range(min(n, chk.quick)):
        core._run_case(chk, 1, i)
    return pid, lines, br


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    pids = [f"C{i:02}" for i in range(1, 31)]
    L, B = {}, {}
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for pid, l, b in p.imap_unordered(one, [(q, n) for q in pids], chunksize=1):
            for k, v in l.items():
                L.setdefault(k, set()).update(v)
            for k, v in b.items():
                B.setdefault(k, set()).update(v)
    from rv import env
    import types
    root = env.REPO + "/PyNite/"
    for f in sorted(q for q in L if q.endswith(".py")):
        code = compile(open(root + f, encoding="utf8").read(), f, "exec")
        src = open(root + f, encoding="utf8").read().splitlines()
        todo, allc = [code], []
        while todo:
            c = todo.pop()
            allc.append(c)
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
        tot = miss = 0
        print("=====", f)
        for c in sorted(allc, key=lambda c: c.co_firstlineno):
            if c.co_name == "<module>":
                continue
            ls = sorted({l for *_, l in c.co_lines() if l and l != c.co_firstlineno})
            un = [l for l in ls if l not in L[f]]
            tot, miss = tot + len(ls), miss + len(un)
            if ls and len(un) == len(ls):
                print(f"  never called: {c.co_name} ({c.co_firstlineno})")
                continue
            for l in un:
                print(f"  {l:5} {c.co_name}: {src[l - 1].strip()[:110]}")
            # one-sided branches on lines that ran
            off = {}
            for a, b, l in c.co_lines():
                for o in range(a, b, 2):
                    off[o] = l
            for (ff, nm, fl, s), d in B.items():
                if ff == f and nm == c.co_name and fl == c.co_firstlineno and len(d) == 1:
                    t = src[off[s] - 1].strip()
                    if not t.startswith(("for ", "while ")):
                        print(f"  {off[s]:5} {c.co_name}: one-sided: {t[:110]}")
        print(f"  -- {tot - miss} of {tot} lines reached")


if __name__ == "__main__":
    main()
