#!/usr/bin/env python3
"""Writes the planted bugs in ../seeded from seeds/*.rs.

A seed file starts with a header of `//!` lines:
    //! property: F07
    //! needs: ...
    //! breaks: ...
    //! edit: path/in/repo          (then `//!- old line` / `//!+ new line`)
and goes on with the demonstration's `fn main`.

mk_seed.py ID...            write seeded/ID (all without arguments)
"""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KIT = os.path.join(HERE, "seed_template")
MON = os.path.join(VERIF, "harness", "mon")


def parse(path):
    head, body, edits, cur = {}, [], [], None
    for line in open(path):
        if line.startswith("//! edit:"):
            cur = {"file": line.split(":", 1)[1].strip(), "old": [], "new": []}
            edits.append(cur)
        elif line.startswith("//!-"):
            cur["old"].append(line[4:].rstrip("\n"))
        elif line.startswith("//!+"):
            cur["new"].append(line[4:].rstrip("\n"))
        elif line.startswith("//!=") :
            cur["old"].append(line[4:].rstrip("\n"))
            cur["new"].append(line[4:].rstrip("\n"))
        elif line.startswith("//! "):
            key, _, val = line[4:].partition(":")
            head[key.strip()] = val.strip()
        else:
            body.append(line)
    return head, "".join(body), edits


def patch(edits):
    out = ""
    by_file = {}
    for e in edits:
        by_file.setdefault(e["file"], []).append(e)
    for f, es in by_file.items():
        src = subprocess.check_output(
            ["git", "-C", "/repo", "show", f"HEAD:{f}"], text=True)
        new = src
        for e in es:
            old = "".join(l + "\n" for l in e["old"])
            assert new.count(old) == 1, (f, new.count(old), old)
            new = new.replace(old, "".join(l + "\n" for l in e["new"]))
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            for side, text in (("a", src), ("b", new)):
                p = os.path.join(d, side, f)
                os.makedirs(os.path.dirname(p))
                open(p, "w").write(text)
            r = subprocess.run(["git", "diff", "--no-index", "--no-color",
                                f"a/{f}", f"b/{f}"], cwd=d, text=True,
                               capture_output=True)
            out += r.stdout.replace(f"a/a/{f}", f"a/{f}").replace(f"b/b/{f}", f"b/{f}")
    return out


def make(name):
    head, body, edits = parse(os.path.join(HERE, "seeds", name + ".rs"))
    dst = os.path.join(VERIF, "seeded", name)
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    os.makedirs(os.path.join(dst, "kit"))
    kit = os.path.join(dst, "kit")
    for f in ("bank.rs", "abi.rs"):
        shutil.copy(os.path.join(MON, "src", f), kit)
    shutil.copy(os.path.join(KIT, "world.rs"), kit)
    shutil.copy(os.path.join(KIT, "Cargo.toml"), kit)
    lock = open(os.path.join(MON, "Cargo.lock")).read()
    # keep the packages sorted as cargo does
    head_, *pk = lock.split("\n[[package]]\n")
    pk = [p.replace('name = "mon"', 'name = "demo"') for p in pk]
    pk = [p.rstrip("\n") for p in pk]
    pk.sort(key=lambda p: (p.split('"')[1], p.split('"')[3]))
    open(os.path.join(kit, "Cargo.lock"), "w").write(
        head_.rstrip("\n") + "\n" + "".join("\n[[package]]\n" + p + "\n" for p in pk))
    shutil.copy(os.path.join(MON, ".cargo", "config.toml"), kit)
    shutil.copytree(os.path.join(VERIF, "harness", "vendor", "decimal"),
                    os.path.join(kit, "decimal"))
    shutil.copy(os.path.join(KIT, "demo.sh"), dst)
    open(os.path.join(dst, "main.rs"), "w").write(
        "#[allow(dead_code)]\nmod abi;\n#[allow(dead_code)]\nmod bank;\nmod world;\n"
        "#[allow(unused_imports)]\nuse world::*;\n" + body)
    open(os.path.join(dst, "patch.diff"), "w").write(patch(edits))
    json.dump({"property": head["property"], "needs": head["needs"],
               "what_it_breaks": head["breaks"]},
              open(os.path.join(dst, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    names = sys.argv[1:] or sorted(
        f[:-3] for f in os.listdir(os.path.join(HERE, "seeds")) if f.endswith(".rs"))
    for n in names:
        make(n)
        print("wrote", n)
