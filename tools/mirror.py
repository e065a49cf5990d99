#!/usr/bin/env python3
"""Derive a buildable offline workspace from a mega-evm tree.

/repo's own workspace names two git dependencies that cannot be fetched here (salt,
mega-evm-v1_0_1).  This script *copies* the source files of the three library crates into
DEST (contents only rewritten when they differ, so cargo's freshness check follows content),
and derives the manifests without those dependencies:

  - Cargo.toml: minus salt / mega-evm-v1_0_1 lines and minus the bin/mega-evme member;
    dev-dependencies, benches, examples and tests are not mirrored (the harness does not use them).
  - crates/mega-evm/src/external/test_utils.rs (needs salt): emptied.  It is behind the
    test-utils feature, which the harness does not enable.
  - crates/system-contracts/build.rs: the repository's text in a module with an entry point that
    leaves out the forge step and calls the repository's own generator functions.
  - Cargo.lock: the repository's.

usage: mirror.py REPO DEST
"""
import os, re, sys

CRATES = ["crates/mega-evm", "crates/system-contracts", "crates/state-test"]
SKIP = {"target", ".git", "cache", "out", "tests", "benches", "examples", "lib", "test", "scripts"}
EMPTY = {"crates/mega-evm/src/external/test_utils.rs"}

BUILD_MAIN = """#[allow(dead_code, missing_docs, unreachable_pub)]
#[path = "build_upstream.rs"]
mod upstream;

fn main() {
    upstream::generate_without_forge();
}
"""
BUILD_TAIL = """
pub fn generate_without_forge() {
    let manifest_dir = env::var("CARGO_MANIFEST_DIR").unwrap();
    let out_dir = env::var("OUT_DIR").unwrap();
    let crate_dir = Path::new(&manifest_dir);
    let out_path = Path::new(&out_dir);
%s
    let artifacts_dir = crate_dir.join("artifacts");
    println!("cargo::rerun-if-changed=build_upstream.rs");
    println!("cargo::rerun-if-changed={}", artifacts_dir.display());
    for entry in fs::read_dir(&artifacts_dir).unwrap() {
        println!("cargo::rerun-if-changed={}", entry.unwrap().path().display());
    }
    for config in &contracts {
        let latest_path = artifacts_dir.join(format!("{}-latest.json", config.name));
        let latest: ContractArtifact =
            serde_json::from_str(&fs::read_to_string(&latest_path).unwrap()).unwrap();
        let versions = collect_versioned_artifacts(&artifacts_dir, &format!("{}-", config.name));
        generate_rust_constants(out_path, config, &versions, &latest);
    }
}
"""


def main():
    repo, dest = sys.argv[1], sys.argv[2]

    def read(rel):
        with open(os.path.join(repo, rel), "rb") as f:
            return f.read()

    def text(rel):
        return read(rel).decode("utf-8")

    files, links = {}, {}
    root = re.sub(r'^\s*"bin/mega-evme",\n', "", text("Cargo.toml"), flags=re.M)
    root = re.sub(r',\s*"bin/mega-evme"', "", root)
    root = re.sub(r"^(salt|mega-evm-v1_0_1)\s*=.*\n", "", root, flags=re.M)
    files["Cargo.toml"] = root.encode()
    for crate in CRATES:
        for base, dirs, names in os.walk(os.path.join(repo, crate)):
            rb = os.path.relpath(base, repo)
            # only top-level folders of a crate are skipped: src/ is always taken whole
            if rb == crate:
                dirs[:] = sorted(d for d in dirs if d not in SKIP)
            for n in names:
                rel = os.path.join(rb, n)
                src = os.path.join(repo, rel)
                if os.path.islink(src):
                    # build.rs tells versioned artifacts from the -latest links by being links
                    if os.path.exists(src):
                        links[rel] = os.readlink(src)
                    continue
                if rel in EMPTY:
                    files[rel] = b""
                elif rel == "crates/system-contracts/build.rs":
                    files[rel] = BUILD_MAIN.encode()
                    up = text(rel)
                    m = re.search(r"^    let contracts = \[.*?^    \];$", up, flags=re.M | re.S)
                    if not m:
                        sys.exit("mirror.py: no contracts table in build.rs")
                    files["crates/system-contracts/build_upstream.rs"] = (up + BUILD_TAIL % m.group(0)).encode()
                elif n == "Cargo.toml":
                    t = re.sub(r"^(salt|mega-evm-v1_0_1)(\.workspace)?\s*=.*\n", "", text(rel), flags=re.M)
                    t = t.replace('["dep:salt"]', "[]")
                    # drop dev-dependencies and the bench/example targets (not mirrored)
                    t = re.sub(r"^\[dev-dependencies\]\n(?:(?!\[).*\n?)*", "", t, flags=re.M)
                    t = re.sub(r"^\[\[(bench|example|test)\]\]\n(?:(?!\[).*\n?)*", "", t, flags=re.M)
                    files[rel] = t.encode()
                else:
                    files[rel] = read(rel)

    # stale files
    for base, dirs, names in os.walk(dest, topdown=False):
        for n in names:
            p = os.path.join(base, n)
            rel = os.path.relpath(p, dest)
            if (rel not in files and rel not in links and rel != "Cargo.lock") or os.path.islink(p):
                os.unlink(p)
        if base != dest and not os.listdir(base):
            os.rmdir(base)
    for rel, target in links.items():
        p = os.path.join(dest, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.lexists(p):
            os.unlink(p)
        os.symlink(target, p)
    for rel, content in files.items():
        p = os.path.join(dest, rel)
        try:
            with open(p, "rb") as f:
                if f.read() == content:
                    continue
        except (FileNotFoundError, IsADirectoryError):
            pass
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content)


main()
