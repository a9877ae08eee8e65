#!/usr/bin/env python3
"""Derive the verification builds of two dependencies from the cargo registry.

wide          - compiled without its SSE/AVX code paths, i.e. its own portable
                fallback (lane-wise scalar operations), because CBMC has no SIMD intrinsics.
generic-array - the storage of GenericArray<T, UN> is written as the plain array
                [T; N] for N <= 128 (upstream: nested structs of the same contiguous
                layout with zero-sized base arrays, which crash CBMC's simplifier).
Both changes are textual and redone on every run; nothing in /repo is touched.
"""
import glob, os, re, shutil, sys, tarfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "build", "patched")

def locate(name):
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    for d in glob.glob(f"{home}/registry/src/*/{name}"):
        return d
    for c in glob.glob(f"{home}/registry/cache/*/{name}.crate"):
        t = os.path.join(ROOT, "build", "unpacked")
        os.makedirs(t, exist_ok=True)
        with tarfile.open(c) as f:
            f.extractall(t)
        return os.path.join(t, name)
    raise SystemExit(f"dependency {name} not in the cargo registry")

def lock_version(name, major):
    s = open(os.path.join(ROOT, "kani", "harness", "Cargo.lock")).read()
    for m in re.finditer(r'name = "%s"\nversion = "([^"]+)"' % re.escape(name), s):
        if m.group(1).startswith(major):
            return m.group(1)
    raise SystemExit(f"{name} {major}* not in Cargo.lock")

def main():
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    v = lock_version("wide", "0.7")
    src = locate(f"wide-{v}")
    dst = os.path.join(OUT, "wide")
    shutil.copytree(os.path.join(src, "src"), os.path.join(dst, "src"))
    for p in glob.glob(dst + "/src/**/*.rs", recursive=True):
        s = open(p).read()
        s = re.sub(r'target_feature\s*=\s*"(avx2?|fma|sse|sse2|sse3|ssse3|sse4\.1|sse4\.2)"',
                   r'target_feature="none_\1"', s)
        open(p, "w").write(s)
    open(os.path.join(dst, "Cargo.toml"), "w").write(f'''[package]
name = "wide"
version = "{v}"
edition = "2018"
[lib]
name = "wide"
path = "src/lib.rs"
[features]
default = ["std"]
std = []
[dependencies]
bytemuck = "1"
safe_arch = {{ version = "0.7", features = ["bytemuck"] }}
''')
    v = lock_version("generic-array", "1.")
    src = locate(f"generic-array-{v}")
    dst = os.path.join(OUT, "generic-array")
    shutil.copytree(os.path.join(src, "src"), os.path.join(dst, "src"))
    rd = os.path.join(src, "README.md")
    if os.path.exists(rd):
        shutil.copy(rd, dst)
    p = os.path.join(dst, "src", "lib.rs")
    s = open(p).read()
    s, n = re.subn(r'unsafe impl<N: ArrayLength> ArrayLength for UInt<N, B[01]>.*?\n}\n', '', s, flags=re.S)
    assert n == 2, n
    impls = "\n".join(f"unsafe impl ArrayLength for typenum::consts::U{i} {{ type ArrayType<T> = [T; {i}]; }}" for i in range(1, 129))
    assert s.count("type ArrayType<T> = [T; 0];\n}") == 1
    s = s.replace("type ArrayType<T> = [T; 0];\n}", "type ArrayType<T> = [T; 0];\n}\n" + impls)
    open(p, "w").write(s)
    p = os.path.join(dst, "src", "internal.rs")
    s = open(p).read()
    assert "impl<T> Sealed for [T; 0] {}" in s
    s = s.replace("impl<T> Sealed for [T; 0] {}", "impl<T, const N: usize> Sealed for [T; N] {}")
    open(p, "w").write(s)
    open(os.path.join(dst, "Cargo.toml"), "w").write(f'''[package]
name = "generic-array"
version = "{v}"
edition = "2021"
[lib]
name = "generic_array"
path = "src/lib.rs"
[features]
alloc = []
internals = []
[dependencies]
rustversion = "1"
typenum = {{ version = "1.16", features = ["const-generics"] }}
''')

if __name__ == "__main__":
    main()
