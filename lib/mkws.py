"""Mirror of the cargo workspace /repo/solana for the verification build.

Sources are copied by content on every run, so every run encodes the current working tree; only the
manifests are rewritten (and private modules of a crate's root made public): git dependencies are dropped, or replaced by a path dependency on the shim in
/verif/shims, and the `deny(warnings)` lint is turned off (a newer rustc warns about more)."""
import os, re, shutil, glob, tomllib

REPO = os.environ.get("NTT_REPO", "/repo") + "/solana"
HERE = os.path.dirname(os.path.abspath(__file__))
SHIMS = os.path.normpath(os.path.join(HERE, "..", "shims"))


def write(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


def sync(s, d):
    """Copy the sources by content: a file whose content is the same keeps its old time stamp, a
    changed one gets a new one, so that cargo rebuilds exactly what changed."""
    keep = {"Cargo.toml"}
    for root, dirs, files in os.walk(s):
        rel = os.path.relpath(root, s)
        dirs[:] = [x for x in dirs if not (rel == "." and x in ("target", "tests", "node_modules"))]
        for f in files:
            if rel == "." and f == "Cargo.toml":
                continue
            r = os.path.normpath(os.path.join(rel, f))
            keep.add(r)
            data = open(f"{root}/{f}", "rb").read()
            if r == "src/lib.rs":
                # visibility only: the harnesses name the state types of private modules
                data = re.sub(rb"(?m)^mod (\w+);", rb"pub mod \1;", data)
            p = f"{d}/{r}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or open(p, "rb").read() != data:
                open(p, "wb").write(data)
    for root, _, files in os.walk(d):
        for f in files:
            r = os.path.relpath(f"{root}/{f}", d)
            if r not in keep:
                os.remove(f"{d}/{r}")


def make(ws):
    root = open(f"{REPO}/Cargo.toml").read()
    meta = tomllib.loads(root)["workspace"]
    gits = {n for n, v in meta["dependencies"].items() if isinstance(v, dict) and "git" in v}
    members = []
    for pat in meta["members"]:
        for m in sorted(glob.glob(f"{REPO}/{pat}/Cargo.toml")):
            members.append(os.path.dirname(os.path.relpath(m, REPO)))
    out = []
    for line in root.splitlines(keepends=True):
        g = next((g for g in gits if re.match(rf"{re.escape(g)}\s*=", line)), None)
        if g:
            if os.path.isdir(f"{SHIMS}/{g}"):
                out.append(f'{g} = {{ path = "{SHIMS}/{g}" }}\n')
            continue
        out.append(line)
    t = "".join(out)
    t = re.sub(r"members\s*=\s*\[.*?\]", "members = [" + ", ".join(f'"{m}"' for m in members) + "]", t, count=1, flags=re.S)
    t = re.sub(r"\[workspace\.lints\.[a-z]+\]\n.*?(?=\n\[)", "", t, flags=re.S)
    t = t.replace("[workspace.dependencies]", '[workspace.lints.rust]\nwarnings = "allow"\n\n[workspace.dependencies]', 1)
    write(f"{ws}/Cargo.toml", t)
    for m in members:
        s, d = f"{REPO}/{m}", f"{ws}/{m}"
        mt = open(f"{s}/Cargo.toml").read()
        # dev-dependencies are not part of the verification build
        mt = re.sub(r"\[dev-dependencies\]\n.*?(?=\n\[|\Z)", "", mt, flags=re.S)
        for g in gits:
            if not os.path.isdir(f"{SHIMS}/{g}"):
                mt = re.sub(rf"(?m)^{re.escape(g)}\s*(\.workspace)?\s*=.*\n", "", mt)
        write(f"{d}/Cargo.toml", mt)
        sync(s, d)
    return members


if __name__ == "__main__":
    import sys
    make(sys.argv[1])
