"""refactor.py FILE [NAME...]: behaviour-preserving edits, each applied to a scratch copy; all checks must stay quiet.
FILE defines R = {name: [(file, old, new), ...]}; a `new` of the form (start, end, text) is not supported."""
import concurrent.futures as cf, importlib.util, json, os, re, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [f"C{i:02d}" for i in range(1, 60) if os.path.exists(f"{V}/spec/src/c{i:02d}.rs") or i == 32]


def run(name, edits, props, cfgs):
    d = f"/tmp/rf-{name}"
    subprocess.run(["rm", "-rf", d])
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    for f, old, new in edits:
        s = open(f"{d}/{f}").read()
        if isinstance(old, tuple):  # (start marker, end marker): replace from start up to and not including end
            a = s.index(old[0])
            b = s.index(old[1], a + len(old[0])) if old[1] else len(s)
            s = s[:a] + new + s[b:]
        elif old is None:
            s += new
        else:
            if old not in s:
                sys.exit(f"{name}: not found in {f}: {old}")
            s = s.replace(old, new)
        open(f"{d}/{f}", "w").write(s)
    env = dict(os.environ, ZKABS_DEV_REPO=d, ZKABS_DEV_EVIDENCE=d + "/ev", ZKABS_DEV_CFGS=cfgs)

    def one(p):
        t = time.time()
        r = subprocess.run([V + "/check", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p, r.returncode, r.stdout, time.time() - t

    bad = []
    with cf.ThreadPoolExecutor(6) as ex:
        for p, rc, out, t in ex.map(one, props):
            if rc:
                bad.append((p, out))
            if t > 240:
                print(f"   {name} {p} took {t:.0f} s")
    print(f"{name}: " + ("quiet" if not bad else "ALARM " + " ".join(p for p, _ in bad)), flush=True)
    seen = set()
    for p, out in bad:
        for l in out.splitlines():
            if l.startswith("VIOLATION"):
                continue
            k = re.sub(r"^\[\w+\] ", "", l)[:160]
            if k not in seen and len(seen) < 14:
                seen.add(k)
                print(f"    {p}: {l[:420]}")
    subprocess.run(["rm", "-rf", d])
    return not bad


if __name__ == "__main__":
    spec = importlib.util.spec_from_file_location("r", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    props = os.environ.get("PROPS", "").split() or PROPS
    cfgs = os.environ.get("CFGS", "debug")
    for n, e in m.R.items():
        if len(sys.argv) > 2 and not any(n.startswith(x) for x in sys.argv[2:]):
            continue
        run(n, e, props, cfgs)
