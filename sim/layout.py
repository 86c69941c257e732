#!/usr/bin/env python3
"""Lays out a cargo workspace that builds tailcall from /repo's working tree for
the simulator. Usage: layout.py comp|full DEST

  full: the whole of src/core (the request path end to end) and src/cli/javascript
  comp: the part of src/core that also builds without the stubs of `full`

Every source file is a copy of /repo's (rewritten only on change, so cargo's
fingerprints stay). The seams are put in while copying:
  - `std::sync::` becomes `simrt::sync::` (scheduling points in locks/atomics)
  - tokio / futures-timer / moka / dashmap are replaced by their simulated
    counterparts through the manifest
  - private modules become public (so the harness reaches them)
Git dependencies that are not available offline are stubbed or left out.
"""
import os
import re
import shutil
import sys
import tomllib

REPO = os.environ.get("SIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
KIND, DEST = sys.argv[1], os.path.abspath(sys.argv[2])

DROP_DEPS = {"genai", "tailcall-tracker", "async-graphql-extension-apollo-tracing"}
DROP_MODULES, DROP_REEXPORTS = set(), {}
if KIND == "comp":
    DROP_DEPS.add("htpasswd-verify")
    DROP_MODULES = set(open(f"{HERE}/left_out_modules.txt").read().split())
    for line in open(f"{HERE}/left_out_reexports.txt"):
        if line.strip():
            DROP_REEXPORTS.setdefault(line.split()[0], []).append(line.split()[1])
DROP_CORE_ITEMS = [
    r"(?m)^use http::Response;\n",
    r"(?m)^use ir::model::IoId;\n",
    r"(?m)^pub type EntityCache\b[^;]*;\n",
    r"(?m)^#\[async_trait::async_trait\]\npub trait HttpIO\b[^{]*\{\n(?:[ \t][^\n]*\n|\n)*\}\n",
]


def put(path, text):
    if isinstance(text, str):
        text = text.encode()
    if os.path.islink(path):
        os.unlink(path)
    if os.path.exists(path):
        with open(path, "rb") as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(text)


def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)


def without(text, name):
    attr = r"(?:[ \t]*#\[[^\n]*\]\n)*"
    vis = r"(?:pub(?:\([^)]*\))?[ \t]+)?"
    text = re.sub(rf"(?m)^{attr}[ \t]*{vis}mod[ \t]+{name}[ \t]*;[ \t]*\n", "", text)
    return re.sub(rf"(?m)^{attr}[ \t]*{vis}use[ \t]+(?:self::)?{name}::[^;]*;[ \t]*\n", "", text)


def without_reexport(text, path):
    mod, name = path.rsplit("::", 1)
    head = rf"^[ \t]*(?:pub(?:\([^)]*\))?[ \t]+)?use[ \t]+(?:self::)?{mod}::"
    text = re.sub(rf"(?m){head}{re.escape(name)}[ \t]*;[ \t]*\n", "", text)

    def some(m):
        names = [n.strip() for n in m.group(2).split(",") if n.strip() and n.strip() != name]
        return f"{m.group(1)}{{{', '.join(names)}}};\n" if names else ""

    return re.sub(rf"(?m)({head})\{{([^}}]*)\}}[ \t]*;[ \t]*\n", some, text)


def manifest():
    text = open(f"{REPO}/Cargo.toml").read()
    for d in DROP_DEPS:
        text = re.sub(rf"(?m)^{re.escape(d)}\s*=.*\n", "", text)
        text = re.sub(rf'(?m)^\s*"dep:{re.escape(d)}",\n', "", text)
    out = []
    for block in re.split(r"(?m)^(?=\[)", text):
        head = block.split("\n", 1)[0].strip()
        if head.startswith(("[[", "[dev-dependencies", "[profile", "[workspace]", "[lints")):
            continue
        if head == "[package]":
            block = re.sub(r"(?m)^(autobins|autobenches|autotests|autoexamples|build)\s*=.*\n", "", block)
            block = block.rstrip() + "\nautobins = false\nautobenches = false\nautotests = false\nautoexamples = false\n\n"
        if head == "[dependencies]":
            block = re.sub(r"(?m)^tokio\s*=.*\n", f'tokio = {{ package = "simtokio", path = "{HERE}/stubs/simtokio", features = ["rt", "time"] }}\n', block)
            block = re.sub(r"(?m)^futures-timer\s*=.*\n", f'futures-timer = {{ path = "{HERE}/stubs/futures-timer", features = ["wasm-bindgen"] }}\n', block)
            block = re.sub(r"(?m)^dashmap\s*=.*\n", f'dashmap = {{ path = "{HERE}/stubs/dashmap" }}\n', block)
            block = re.sub(r"(?m)^htpasswd-verify\s*=.*\n", f'htpasswd-verify = {{ path = "{HERE}/stubs/htpasswd" }}\n', block)
            block = block.rstrip() + f'\nsimrt = {{ path = "{HERE}/simrt" }}\n\n'
        out.append(block)
    text = "".join(out)
    text = re.sub(r'path\s*=\s*"(tailcall-[\w-]+)"', rf'path = "{REPO}/\1"', text)
    # multi-line arrays of the cli feature may name left-out crates
    text = re.sub(r'(?m)^\s*"dep:tailcall-tracker",\n', "", text)
    text += f'\n[workspace]\nmembers = ["harness"{CRATES}]\nexclude = ["{REPO}", "{HERE}"]\n'
    text += PROFILE
    tomllib.loads(text)
    return text


CRATES = ', "crates/tailcall-http-cache"' if KIND == "comp" else ""
PROFILE = """
[profile.dev]
opt-level = 0
debug = "line-tables-only"
incremental = true
panic = "unwind"
[profile.dev.package."*"]
opt-level = 2
debug = false
[profile.dev.package.simrt]
opt-level = 2
[profile.dev.build-override]
opt-level = 0
"""


def split_uses(text):
    """`use std::{sync::X, y::Z};` -> `use std::{y::Z}; use std::sync::X;`"""

    def one(m):
        items, depth, cur = [], 0, ""
        for c in m.group(3):
            if c == "," and depth == 0:
                items.append(cur)
                cur = ""
                continue
            depth += (c == "{") - (c == "}")
            cur += c
        items.append(cur)
        items = [" ".join(i.split()) for i in items if i.strip()]
        mine = [i for i in items if re.match(r"sync\b", i)]
        if not mine:
            return m.group(0)
        rest = [i for i in items if i not in mine]
        out = f"{m.group(1)}{m.group(2)}::{{{', '.join(rest)}}};" if rest else m.group(1).rstrip()[:0]
        head = m.group(1)
        for i in mine:
            i = i.replace("sync as ", "sync as ")
            if i.startswith("sync::"):
                out += f" {head.strip()} std::{i};"
            else:
                out += f" {head.strip()} ::simrt::{i};"
        return out

    return re.sub(r"((?:pub(?:\([^)]*\))?\s+)?use\s+)((?:::)?std)::\{((?:[^{};]|\{(?:[^{};]|\{[^{};]*\})*\})*)\}\s*;", one, text)


def rewrite(rel, text):
    text = split_uses(text)
    text = re.sub(r"(?:\b|(?<!\w)::)std::sync::", "::simrt::sync::", text)
    text = re.sub(r"\buse (::)?std::sync\b", "use ::simrt::sync", text)
    text = re.sub(r"(?m)^([ \t]*)mod (\w+);", r"\1pub mod \2;", text)
    return text


def copy_tree(rel, want, to=None):
    s = os.path.join(REPO, "src", rel)
    for e in sorted(os.listdir(s)):
        r = f"{rel}/{e}" if rel else e
        if r in DROP_MODULES or (e.endswith(".rs") and r[:-3] in DROP_MODULES):
            continue
        p = os.path.join(s, e)
        if os.path.isdir(p):
            copy_tree(r, want, f"{to}/{e}" if to else None)
            continue
        dst = os.path.join(DEST, "src", f"{to}/{e}" if to else r)
        want.add(dst)
        with open(p, "rb") as f:
            data = f.read()
        if e.endswith(".rs"):
            text = data.decode()
            for x in DROP_REEXPORTS.get(r, []):
                text = without_reexport(text, x)
            if e == "mod.rs":
                for m in sorted(DROP_MODULES):
                    d, name = os.path.split(m)
                    if d == rel:
                        text = without(text, name)
            if KIND == "comp" and r == "core/mod.rs":
                for x in DROP_CORE_ITEMS:
                    text = re.sub(x, "", text)
            data = rewrite(r, text).encode()
        put(dst, data)


def crate(name):
    """a member crate of its own, with the same seams"""
    dst = f"{DEST}/crates/{name}"
    text = open(f"{REPO}/{name}/Cargo.toml").read()
    text = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?m)^\[dependencies\]\n", f'[dependencies]\nsimrt = {{ path = "{HERE}/simrt" }}\n', text)
    text = re.sub(rf"(?m)^name\s*=\s*\"{name}\"", f"name = \"sim-{name}\"", text, count=1)
    put(f"{dst}/Cargo.toml", text)
    want = set()
    for d, _, fs in os.walk(f"{REPO}/{name}/src"):
        for f in sorted(fs):
            p = os.path.join(d, f)
            q = dst + "/src" + p[len(f"{REPO}/{name}/src"):]
            want.add(q)
            data = open(p, "rb").read()
            put(q, rewrite(f, data.decode()) if f.endswith(".rs") else data)
    for d, _, fs in os.walk(f"{dst}/src"):
        for f in fs:
            if os.path.join(d, f) not in want:
                os.unlink(os.path.join(d, f))


def main():
    os.makedirs(DEST, exist_ok=True)
    put(f"{DEST}/Cargo.toml", manifest())
    lock = open(f"{REPO}/Cargo.lock").read()
    stamp = f"{DEST}/.lock-from-repo"
    if not (os.path.exists(f"{DEST}/Cargo.lock") and os.path.exists(stamp) and open(stamp).read() == lock):
        put(f"{DEST}/Cargo.lock", lock)
        put(stamp, lock)
    for e in sorted(os.listdir(REPO)):
        if e in (".git", "target", "src", "Cargo.toml", "Cargo.lock", "rust-toolchain.toml", ".cargo", ".gitignore", "harness"):
            continue
        link(f"{REPO}/{e}", f"{DEST}/{e}")
    link(f"{HERE}/{KIND}", f"{DEST}/harness")
    if KIND == "comp":
        crate("tailcall-http-cache")
    want = {f"{DEST}/src/lib.rs"}
    put(f"{DEST}/src/lib.rs", "#![allow(dead_code, unused, private_interfaces, private_bounds, ambiguous_glob_reexports)]\npub mod core;\n" + ("pub mod javascript;\n" if KIND == "full" else ""))
    copy_tree("core", want)
    if KIND == "full":
        copy_tree("cli/javascript", want, "javascript")
    for d, _, fs in os.walk(f"{DEST}/src"):
        for f in fs:
            p = os.path.join(d, f)
            if p not in want:
                os.unlink(p)


main()
