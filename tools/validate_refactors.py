"""validate_refactors.py FILE [NAME...]: each edit must compile and pass the repository's tests (staged offline dependencies)."""
import importlib.util, os, re, shutil, subprocess, sys
OFF = "#[cfg(any())] "
spec = importlib.util.spec_from_file_location("r", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
d = "/tmp/rfc-stage"
for n, edits in m.R.items():
    if len(sys.argv) > 2 and not any(n.startswith(x) for x in sys.argv[2:]):
        continue
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/opt/vp/stage", d, ignore=shutil.ignore_patterns("target"))
    shutil.rmtree(d + "/src"); shutil.copytree("/repo/src", d + "/src")
    for f, old, new in edits:
        s = open(f"{d}/{f}").read()
        if isinstance(old, tuple):
            a = s.index(old[0]); b = s.index(old[1], a + len(old[0])) if old[1] else len(s)
            s = s[:a] + new + s[b:]
        elif old is None:
            s += new
        else:
            assert old in s, (n, f, old)
            s = s.replace(old, new)
        open(f"{d}/{f}", "w").write(s)
    for rel, pat in (("src/lib.rs", r"^(pub use (?:sha2|sha3|blake2);)"), ("src/utils.rs", r"^(pub fn bytecode_to_code_hash)")):
        s = open(f"{d}/{rel}").read()
        open(f"{d}/{rel}", "w").write(re.sub(pat, OFF + r"\1", s, flags=re.M))
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/rfc-target; cargo test --offline -q"], cwd=d, capture_output=True, text=True)
    print(n, "ok" if r.returncode == 0 else "FAILS", flush=True)
    if r.returncode:
        ls = (r.stderr + r.stdout).splitlines()
        for i, l in enumerate(ls):
            if l.startswith("error") or "panicked" in l:
                print("   ", "\n    ".join(ls[i:i+6]))
shutil.rmtree(d, ignore_errors=True)
