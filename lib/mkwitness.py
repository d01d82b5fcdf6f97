"""Record, for every reachability witness of every harness, an input that reaches it (witnesses.json).

Run on the unchanged tree whenever a harness changes. mkwitness.py [--verify] [harness...]"""
import concurrent.futures as cf, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, plan

args = [a for a in sys.argv[1:] if "::" in a]
hs = {h["name"]: h for p in plan.PLAN for h in plan.harnesses(p, "thorough")}
names = [n for n in hs if not args or n in args]
W = check.witnesses()
check.prepare()


def bad(n):
    out = []
    for c, v in W.get(n, {}).items():
        code, txt = check.replay(native, n, [int(x) for x in v], "/tmp/w.json", cover=c)
        if code != 11:
            out.append((n, c, code, txt))
    return out


native = check.native_build(names)
if "--verify" not in sys.argv:
    stale = [n for n in names if args or n not in W or bad(n)]
    print("to do:", len(stale), flush=True)

    def one(n, sym):
        h = hs[n]
        if h.get("nocover"):
            return n, {}
        r = check.verify("none", n, *sym, h["unwind"], 1500, h.get("extra", ()))
        w = {}
        for c in r["covered"]:
            c = c.split("COVER:")[1]
            v = check.counterexample(r["goto"], r["cover_names"][c], h["unwind"], 1500, h.get("extra", ()))
            if v is not None:
                w[c] = [str(x) for x in v]
        return n, w
    syms = check.codegen(stale)
    with cf.ThreadPoolExecutor(int(os.environ.get("NTT_JOBS", "6"))) as ex:
        for f in cf.as_completed([ex.submit(one, n, syms[n]) for n in stale]):
            try:
                n, w = f.result()
            except Exception as e:
                print("failed:", e, flush=True)
                continue
            W[n] = w
            print(n, list(w), flush=True)
            json.dump(W, open(f"{check.VERIF}/witnesses.json", "w"), indent=0, sort_keys=True)
for n in names:
    for b in bad(n):
        print("does not reach:", b)
    if not W.get(n) and not hs[n].get("nocover"):
        print("none:", n)
