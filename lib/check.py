#!/usr/bin/env python3
"""Decide one property with the solver.

  check.py <property> [quick|thorough]     decide a property
  check.py --setup                         build everything once
  check.py --harness <name> [unwind]       run one harness and print every verdict (development)

The current sources of /repo are compiled by Kani's compiler to a goto program for each harness,
CBMC executes it symbolically and hands the assertions to a SAT solver. Every failed assertion is
replayed natively: the same harness and the same sources, compiled by rustc, run on the solver's
values. Exit 0: every assertion holds within the bounds. Exit 1: VIOLATION. Exit 2: no answer.
"""
import concurrent.futures as cf
import fcntl, fnmatch, hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("NTT_BUILD", f"{VERIF}/build")
KANI = os.path.expanduser("/root/.kani/kani-0.68.0")
BIN = f"{KANI}/bin/"
sys.path.insert(0, HERE)
import mkws, plan, vendor

JOBS = int(os.environ.get("NTT_JOBS", "8"))
T0 = time.time()


class Inconclusive(Exception):
    pass


class BuildFailed(Inconclusive):
    pass


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_BOOTSTRAP"] = "1"
    e.pop("RUSTFLAGS", None)
    return e


def prepare():
    """Mirror /repo, vendor and patch the dependencies, and write the harness crate's manifest."""
    os.makedirs(BUILD, exist_ok=True)
    mkws.make(f"{BUILD}/ws")
    if vendor.make(f"{VERIF}/harness/Cargo.lock", f"{BUILD}/vendor"):
        shutil.rmtree(f"{BUILD}/h/target", ignore_errors=True)
    t = open(f"{VERIF}/harness/Cargo.toml.in").read().replace("@WS@", f"{BUILD}/ws")
    mkws.write(f"{BUILD}/h/Cargo.toml", t)
    mkws.write(f"{BUILD}/.cargo/config.toml",
               f'[source.crates-io]\nreplace-with = "vendored"\n[source.vendored]\ndirectory = "{BUILD}/vendor"\n')
    if not os.path.exists(f"{BUILD}/h/Cargo.lock"):
        shutil.copyfile(f"{VERIF}/harness/Cargo.lock", f"{BUILD}/h/Cargo.lock")
    vendor.sync_tree(f"{VERIF}/harness/src", f"{BUILD}/h/src")


def features(harnesses):
    return ",".join(sorted({h.split("::")[0] for h in harnesses}))


def codegen(harnesses):
    cmd = ["cargo", "kani", "--lib", "--only-codegen", "--no-assertion-reach-checks", "--exact", "--features", features(harnesses)]
    for h in harnesses:
        cmd += ["--harness", h]
    t = time.time()
    r = subprocess.run(cmd, cwd=f"{BUILD}/h", env=env(), capture_output=True, text=True)
    if r.returncode:
        err = "\n".join(re.findall(r"^error.*(?:\n(?!warning|error).*){0,14}", r.stdout + r.stderr, re.M))
        raise BuildFailed("the verification build failed:\n" + (err or (r.stdout + r.stderr)[-3000:])[:6000])
    log(f"codegen of {len(harnesses)} harnesses {time.time()-t:.1f}s")
    base = f"{BUILD}/h/target/kani/x86_64-unknown-linux-gnu/debug/build/ntt-harness"
    metas = []
    for d in os.listdir(base):
        o = f"{base}/{d}/out"
        if os.path.isdir(o):
            metas += [f"{o}/{f}" for f in os.listdir(o) if f.endswith(".kani-metadata.json")]
    metas.sort(key=os.path.getmtime, reverse=True)
    res = {}
    for m in metas:
        for h in json.load(open(m))["proof_harnesses"]:
            n = h["pretty_name"]
            if n in harnesses and n not in res and os.path.exists(h["goto_file"]):
                res[n] = (h["goto_file"], h["mangled_name"])
    for h in harnesses:
        if h not in res:
            raise Inconclusive(f"harness {h} was not generated")
    return res


def clean_codegen(keep):
    """Goto programs of earlier runs are not needed any more."""
    base = f"{BUILD}/h/target/kani/x86_64-unknown-linux-gnu/debug/build/ntt-harness"
    for d in os.listdir(base):
        o = f"{base}/{d}/out"
        if os.path.isdir(o):
            for f in os.listdir(o):
                if f.endswith(".symtab.out") and f"{o}/{f}" not in keep:
                    os.remove(f"{o}/{f}")


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (26 << 30, 26 << 30))


def run(cmd, timeout=600):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, preexec_fn=limit)


# Functions whose bodies are replaced by "returns anything": they only build or print error
# messages and release memory. Destructors that do more than that are kept: of borrow guards, of the guard that
# sets a vector's length (and closures, which may own one), and of types of the repository that implement Drop.
def irrelevant(pretty, own=()):
    if pretty.startswith("std::ptr::drop_glue::<"):
        return not re.search(r"^std::ptr::drop_glue::<\{closure|cell::(Borrow)?Ref(Mut)?\b|SetLenOnDrop|set_len_on_drop|Drain\b|Splice\b|BackshiftOnDrop|PeekMut", pretty) \
            and not any(t in pretty for t in own)
    return bool(re.search(
        r"sol_log|alloc::fmt::format|RawVecInner.*::deallocate|^<.* as std::fmt::(Debug|Display)>::fmt"
        r"|core::fmt::Formatter|fmt::Write|^std::fmt::|^alloc::rc::.*drop_slow|::name$(?=\b)", pretty))


def goto(h, sym, fn):
    d = f"{BUILD}/goto"
    os.makedirs(d, exist_ok=True)
    out = f"{d}/{h.replace('::', '.')}.out"

    def step(cmd):
        r = run(cmd)
        if r.returncode:
            raise Inconclusive(f"{h}: {os.path.basename(cmd[0])} failed: {(r.stdout + r.stderr)[-500:]}")
        return r.stdout

    step([BIN + "goto-cc", sym, f"{KANI}/library/kani/kani_lib.c", "--function", fn, "-o", out])
    rm, real = [], []
    listing = step([BIN + "goto-instrument", "--list-goto-functions", out])
    own = {m.group(1) for m in re.finditer(r"^<((?:example_native_token_transfers|ntt_\w+|wormhole_governance)::[\w:]+)[^\n]*? as [\w:]*Drop>::drop /\*", listing, re.M)}
    for l in listing.splitlines():
        m = re.match(r"(.*) /\* (\S+?)(, body not available)? \*/", l)
        if not m or m.group(3):
            continue
        if irrelevant(m.group(1), own):
            rm.append(m.group(2))
        else:
            real.append(m.group(1))
    cmd = [BIN + "goto-instrument"]
    for s in rm:
        cmd += ["--remove-function-body", s]
    if rm:
        step(cmd + ["--generate-function-body-options", "nondet-return",
                    "--generate-function-body", "(" + "|".join(map(re.escape, rm)) + ")", out, out])
    step([BIN + "goto-instrument", "--add-library", "--no-malloc-may-fail", out, out])
    step([BIN + "goto-instrument", "--generate-function-body-options", "assert-false-assume-false",
          "--generate-function-body", ".*", "--drop-unused-functions", out, out])
    if os.environ.get("BE"): step([BIN + "goto-instrument", "--ensure-one-backedge-per-target", out, out])
    return out, real


CBMC = [BIN + "cbmc", "--no-standard-checks", "--unwinding-assertions", "--object-bits", "16",
        "--no-self-loops-to-assumptions", "--sat-solver", "cadical", "--json-ui", "--verbosity", "9"]


def cbmc_json(cmd, timeout):
    try:
        r = run(cmd, timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"solver timeout after {timeout}s")
    try:
        return json.loads(r.stdout)
    except ValueError:
        raise Inconclusive(f"cbmc gave no answer (exit {r.returncode}): {(r.stdout + r.stderr)[-400:]}")


def relevant(prop, desc, cls, name, nopanic=False):
    """Which assertions a check of `prop` looks at."""
    if nopanic and cls in ("assertion", "arithmetic_overflow", "bounds_check", "division-by-zero") and not re.search("PROP:|COVER:|MODEL:", desc):
        return True
    m = re.search(r"PROP:([A-Z]\d+)?", desc)
    if m:
        label = desc.split("PROP:")[1]
        return prop is None or m.group(1) in (None, prop) or any(fnmatch.fnmatchcase(label, x) for x in plan.ALSO.get(prop, ()))
    if "COVER:" in desc:
        return True
    if "MODEL:limit" in desc or cls in ("unsupported_construct", ""):
        return True
    return False


def verify(prop, h, sym, fn, unwind, timeout, extra=(), nopanic=False):
    t = time.time()
    out, real = goto(h, sym, fn)
    props = []
    for x in cbmc_json(CBMC + ["--show-properties", out], 120):
        props += x.get("properties", [])
    want = {p["name"]: p for p in props if relevant(prop, p["description"], p["class"], p["name"], nopanic)}
    cmd = CBMC + ["--unwind", str(unwind), "--slice-formula"] + list(extra)
    for n in want:
        cmd += ["--property", n]
    js = cbmc_json(cmd + [out], timeout)
    res = {"harness": h, "unwind": unwind, "holds": [], "fails": [], "covered": [], "uncovered": [],
           "problems": [], "functions": [f for f in real if re.search(
               r"example_native_token_transfers|ntt_messages|ntt_transceiver|ntt_quoter|wormhole_governance|dummy_transfer_hook", f)
               and "ntt_harness" not in f],
           "stats": {}}
    msgs = []
    for x in js:
        if "messageText" in x:
            msgs.append(x["messageText"])
    text = "\n".join(msgs)
    st = res["stats"]
    m = re.findall(r"(\d+) variables, (\d+) clauses", text)
    if m:
        st["variables"], st["clauses"] = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"size of program expression: (\d+) steps", text)
    if m:
        st["steps"] = int(m.group(1))
    m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", text)
    if m:
        st["vccs"] = int(m.group(1))
    st["solver_calls"] = len(re.findall(r"Runtime Solver", text))
    st["solver_s"] = round(sum(float(v) for v in re.findall(r"Runtime Solver: ([\d.e+-]+)s", text)), 3)
    st["symex_s"] = round(sum(float(v) for v in re.findall(r"Runtime Symex: ([\d.e+-]+)s", text)), 3)
    got = [x["result"] for x in js if "result" in x]
    if not got:
        raise Inconclusive(f"{h}: no result from cbmc: {text[-400:]}")
    for r in got[-1]:
        d, s, n = r["description"], r["status"], r["property"]
        desc = re.sub(r"^\[KANI_CHECK_ID[^\]]*\] ", "", d)
        if "COVER:" in d:
            res.setdefault("cover_names", {})[desc.split("COVER:")[1]] = n
            res["covered" if s == "FAILURE" else "uncovered"].append(desc)
        elif "PROP:" in d:
            if s == "SUCCESS":
                res["holds"].append(desc)
            else:
                res["fails"].append((n, desc))
        elif nopanic and relevant(prop, d, n.split(".")[-2] if "." in n else "", n, True) and not relevant(prop, d, n.split(".")[-2] if "." in n else "", n):
            if s == "SUCCESS":
                res["nopanic"] = res.get("nopanic", 0) + 1
            else:
                res["fails"].append((n, "PROP:panic: " + desc[:80]))
        elif s != "SUCCESS":
            res["problems"].append(f"{n}: {desc[:200]}")
    res["goto"] = out
    res["wall"] = round(time.time() - t, 1)
    if unwind < 140 and any(".unwind." in x for x in res["problems"]):
        # a loop that is longer than any was when the bound was chosen
        return verify(prop, h, sym, fn, 140, max(60, timeout - (time.time() - t)), extra, nopanic)
    return res


def counterexample(out, name, unwind, timeout, extra=()):
    """The values of the nondeterministic choices, in the order the harness made them."""
    js = cbmc_json(CBMC + ["--unwind", str(unwind), "--property", name, "--trace"] + list(extra) + [out], timeout)
    for x in js:
        for r in x.get("result", []):
            if r.get("property") == name and "trace" in r:
                vals = []
                for s in r["trace"]:
                    if s.get("stepType") == "assignment" and s.get("lhs", "").startswith("goto_symex$$return_value$$") \
                            and re.search(r"ntt_model::nd_(u8|u16|u32|u64|u128|i64)$", s.get("sourceLocation", {}).get("function", "")):
                        b = s.get("value", {}).get("binary")
                        if b is not None:
                            vals.append(int(b, 2))
                return vals
    return None


def native_build(harnesses):
    r = subprocess.run(["cargo", "+stable", "build", "--features", "replay," + features(harnesses), "--bin", "replay"],
                       cwd=f"{BUILD}/h", env=env(), capture_output=True, text=True)
    if r.returncode:
        raise Inconclusive("the native replay build failed:\n" + r.stderr[-3000:])
    return f"{BUILD}/h/target/debug/replay"


def replay(b, h, vals, path, want=None, cover=None):
    json.dump({"harness": h, "assertion": want, "reach": cover, "values": [str(v) for v in vals]}, open(path, "w"))
    e = dict(os.environ)
    if want:
        e["NTT_WANT"] = want
    if cover:
        e["NTT_COVER"] = cover
        e["NTT_WANT"] = "-"
    r = subprocess.run([b, h] + [str(v) for v in vals], capture_output=True, text=True, timeout=60, env=e)
    return r.returncode, (r.stdout + r.stderr).strip()[-600:]


def known(prop):
    p = f"{VERIF}/known_findings.json"
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop] if os.path.exists(p) else []


def witnesses():
    """Inputs that reach each witness of each harness on the original tree (made by lib/mkwitness.py)."""
    p = f"{VERIF}/witnesses.json"
    return json.load(open(p)) if os.path.exists(p) else {}


def check(prop, tier):
    ent = plan.PLAN[prop]
    hs = plan.harnesses(prop, tier)
    prepare()
    # the longest ones first
    dropped = []
    try:
        syms = codegen([h["name"] for h in hs])
    except BuildFailed as e:
        # harnesses of single functions are extra: they are left out when a function has another signature now
        dropped = [h["name"] for h in hs if h.get("optional")]
        hs = [h for h in hs if not h.get("optional")]
        if not dropped or not hs:
            raise
        log("without the harnesses of single functions:", str(e)[:500])
        syms = codegen([h["name"] for h in hs])
    clean_codegen({s for s, _ in syms.values()})
    results, errors = [], []
    budget = 780 if tier == "quick" else 3 * 3600
    hs.sort(key=lambda h: -h.get("cost", 5))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = {ex.submit(verify, prop, h["name"], *syms[h["name"]], h["unwind"],
                        max(60, budget - (time.time() - T0)), h.get("extra", ()), h.get("nopanic", False)): h for h in hs}
        for f in cf.as_completed(fs):
            h = fs[f]
            try:
                r = f.result()
                results.append((h, r))
                log(f"{h['name']}: {len(r['holds'])} hold, {len(r['fails'])} fail, covers {len(r['covered'])}/"
                    f"{len(r['covered']) + len(r['uncovered'])}, {r['wall']}s (symex {r['stats'].get('symex_s')}s, solver {r['stats'].get('solver_s')}s)")
            except Inconclusive as e:
                errors.append(f"{h['name']}: {e}")
                log(f"{h['name']}: {e}")
    violations, findings = [], []
    os.makedirs(f"{VERIF}/evidence/cex", exist_ok=True)
    todo, unreachable = [], []
    for h, r in results:
        for x in r["uncovered"]:
            if h.get("nocover") or x.split("COVER:")[-1] in h.get("skip", ()):
                continue
            c = x.split("COVER:")[-1]
            w = witnesses().get(h["name"], {}).get(c)
            if w is None or r["fails"] or r["problems"]:
                errors.append(f"{h['name']}: vacuous: {x} cannot be reached")
            else:
                unreachable.append((h, c, [int(v) for v in w]))
        for x in r["problems"]:
            errors.append(f"{h['name']}: outside the encoding: {x}")
        i = 0
        for n, desc in r["fails"]:
            k = next((k for k in known(prop) if k["harness"] == h["name"] and k["assertion"] == desc.split("PROP:")[1]), None)
            if k:
                findings.append(k)
            else:
                todo.append((i, r["wall"], h, r, n, desc))
                i += 1
    # a failed assertion counts once its counterexample shows natively
    todo.sort(key=lambda x: x[:2])
    native = None
    for at in range(0, len(todo), 4):
        batch = todo[at:at + 4]
        with cf.ThreadPoolExecutor(5) as ex:
            nb = ex.submit(native_build, [x["name"] for x in hs]) if native is None else None
            fs = {ex.submit(counterexample, x[3]["goto"], x[4], x[3]["unwind"], 500, x[2].get("extra", ())): x for x in batch}
            for f in cf.as_completed(fs):
                _, _, h, r, n, desc = fs[f]
                try:
                    vals = f.result()
                    if vals is None:
                        errors.append(f"{h['name']}: {desc} fails, but the solver gave no trace")
                        continue
                    native = native or nb.result()
                    path = f"{VERIF}/evidence/cex/{prop}-{h['name'].replace('::', '.')}-{re.sub(r'[^A-Za-z0-9-]+', '.', desc.split('PROP:')[1])[:60]}.json"
                    code, txt = replay(native, h["name"], vals, path, None if "panic" in desc else desc.split("PROP:")[1])
                    log(f"{h['name']}: {desc}: native replay exit {code}: {txt}")
                    if code == 10 or (code == 101 and "panic" in desc):
                        violations.append((desc, h["name"], path))
                        subprocess.run(["pkill", "-P", str(os.getpid()), "cbmc"])
                    else:
                        errors.append(f"{h['name']}: {desc} fails in the encoding, but the native replay does not show it ({code}: {txt})")
                except Inconclusive as e:
                    errors.append(f"{h['name']}: {desc}: {e}")
        if violations:
            break
    # what the instruction must be able to do, and the solver shows that it can not, for any values: the recorded
    # input with which it did so must not do it natively either
    if unreachable and not violations:
        native = native or native_build([x["name"] for x in hs])
        for h, c, vals in unreachable:
            path = f"{VERIF}/evidence/cex/{prop}-{h['name'].replace('::', '.')}-{c}.json"
            code, txt = replay(native, h["name"], vals, path, cover=c)
            log(f"{h['name']}: {c} cannot be reached: native replay of the recorded input exit {code}: {txt}")
            if code == 11:
                errors.append(f"{h['name']}: {c} cannot be reached in the encoding, but natively")
            else:
                violations.append((f"{prop}: '{c}' is no longer possible for any input; it", h["name"], path))
    evidence(prop, tier, ent, hs, results, violations, findings, errors, dropped)
    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        for desc, h, path in violations:
            print(f"{desc} fails in harness {h}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print(f"INCONCLUSIVE property={prop} {e}")
        return 2
    n = sum(len(r["holds"]) for _, r in results)
    print(f"OK property={prop} tier={tier}: {n} assertions hold in {len(results)} harnesses ({time.time()-T0:.0f}s)")
    return 0


ASSUMPTIONS = [
    "program derived addresses and hashes are injective in their inputs, otherwise arbitrary",
    "a failed instruction is rolled back by the runtime, so only successful ones are judged",
    "the runtime, the token programs, the system program and the wormhole core bridge behave as modelled",
    "account data is held as typed values; Anchor's (de)serialisation of account data is replaced (see C22 for its space)",
]


def evidence(prop, tier, ent, hs, results, violations, findings, errors, dropped=()):
    fns = sorted({f for _, r in results for f in r["functions"]})
    short = sorted({re.sub(r"example_native_token_transfers", "ntt", f)[:160] for f in fns})
    ob = sum(len(r["holds"]) + len(r["fails"]) for _, r in results)
    cov = {
        "obligations": ob,
        "discharged": sum(len(r["holds"]) for _, r in results),
        "checker_cmd": f"python3 lib/check.py {prop} {tier}",
        "trusted_base": ["Kani 0.68 compiler", "CBMC 6.11", "CaDiCaL", "the environment model: overlay/ntt_model.rs, lib/vendor.py, harness/src/token.rs"],
        "explanation": "bounded symbolic execution of the compiled sources; each obligation is one assertion, decided by SAT over all values of the symbolic inputs within the bounds",
        "bounds": {"loop_unwinding": {h["name"]: r["unwind"] for h, r in results}, "text": ent["bounds"]},
        "outside_bounds": ent.get("outside", ""),
        "harnesses": [{
            "name": r["harness"], "assertions": r["holds"][:60], "failed": [d for _, d in r["fails"]],
            "reached": r["covered"], "wall_s": r["wall"], **r["stats"]} for _, r in results],
        "solver_calls": sum(r["stats"].get("solver_calls", 0) for _, r in results),
        "solver_s": round(sum(r["stats"].get("solver_s", 0) for _, r in results), 2),
        "functions_encoded_count": len(fns),
        "functions_encoded": short[:220],
        "inconclusive": errors[:20],
        "left_out": list(dropped),
        "violations": [{"assertion": d, "harness": h, "replay": p} for d, h, p in violations],
        "known_findings": findings,
        "samples": [r["harness"] + ": " + x for _, r in results for x in r["holds"]][:10],
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": "other", "coverage": cov, "violations": len(violations), "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - T0, 1)}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and cov["functions_encoded"]:
        cov["functions_encoded"] = cov["functions_encoded"][: len(cov["functions_encoded"]) // 2]
        s = json.dumps(ev, indent=1)
    open(f"{VERIF}/evidence/{prop}.json", "w").write(s)


def dev(args):
    names = [a for a in args if "::" in a]
    unw = [int(a) for a in args if a.isdigit()]
    prepare()
    syms = codegen(names)
    allh = {h["name"]: h for p in plan.PLAN for h in plan.harnesses(p, "thorough")}

    def one(n):
        h = allh.get(n, {"unwind": 40})
        u = unw[0] if unw else h["unwind"]
        try:
            return verify(None, n, *syms[n], u, int(os.environ.get('TMO','3000')), h.get("extra", ()), h.get("nopanic", False)), u, h
        except Inconclusive as e:
            print(n, "INCONCLUSIVE", str(e)[:1500], flush=True)
            return None, u, h
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in cf.as_completed([ex.submit(one, n) for n in names]):
            r, u, h = f.result()
            if r is None:
                continue
            print(f"== {r['harness']} wall {r['wall']} unwind {u} {r['stats']}")
            print("  holds:", " ".join(x.replace("PROP:", "") for x in r["holds"]))
            print("  covers:", len(r["covered"]), "UNCOVERED:" if r["uncovered"] else "", r["uncovered"] or "")
            for p in r["problems"][:12]:
                print("  PROBLEM", p[:300])
            for n, d in r["fails"]:
                print("  FAIL", d)
                if "--cex" in args:
                    vals = counterexample(r["goto"], n, u, 900, h.get("extra", ()))
                    print("   values", [hex(v) for v in vals or []])
                    if vals is not None:
                        print("   replay", replay(native_build(names), r["harness"], vals, "/tmp/cex.json"))


def setup():
    prepare()
    first = plan.harnesses(next(iter(plan.PLAN)), "quick")[0]["name"]
    log("native build")
    native_build([first])
    log("kani build")
    codegen([first])


def main():
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if sys.argv[1] == "--setup":
            setup()
            return 0
        if sys.argv[1] == "--harness":
            dev(sys.argv[2:])
            return 0
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        try:
            return check(prop, tier)
        except Inconclusive as e:
            evidence(prop, tier, plan.PLAN[prop], plan.harnesses(prop, tier), [], [], [], [str(e)[:2000]])
            print(f"INCONCLUSIVE property={prop} {e}")
            return 2


if __name__ == "__main__":
    sys.exit(main())
