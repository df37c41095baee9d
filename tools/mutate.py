"""mutate.py OUT.json [--shard I/N] [--only PATH-PREFIX] [--list]

Systematic single-token mutants of /repo's non-test sources, each judged by the checks (debug configuration) on a
scratch clone. A mutant ends "built" (does not compile), "caught by Cxx" or "survived"; survivors are for a person to
classify. Run from a copy of /verif, so that editing can go on."""
import concurrent.futures as cf, json, os, re, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [f"C{i:02d}" for i in range(1, 60) if os.path.exists(f"{V}/spec/src/c{i:02d}.rs") or i == 32]
SLOW = ["C14", "C08", "C33", "C12", "C39", "C40"]
BASE = [p for p in ["C29", "C36", "C41", "C17", "C44", "C43", "C42", "C18", "C20", "C13", "C45"] if p in PROPS]
FIRST = {
    "circuit_prices": ["C16", "C15", "C41"], "circuit_pricing": ["C16"], "imm_mem": ["C20", "C19"], "opcode.rs": ["C40", "C45", "C08"],
    "system_params": ["C29", "C41", "C36", "C17", "C15"], "utils": ["C28", "C27", "C45"],
    "production": ["C01", "C03", "C05", "C06", "C43"], "testing": ["C02", "C04", "C05", "C06", "C43"],
    "decoding/mod": ["C07", "C34", "C06", "C45"], "condition": ["C31", "C40"], "abi/": ["C21", "C22", "C23", "C24", "C25", "C26", "C38"],
    "versioned_hash": ["C27", "C45"], "definitions/mod": ["C09", "C10", "C11", "C39"], "lib.rs": ["C36", "C12", "C11", "C08", "C13"],
    "all.rs": ["C14", "C35", "C15", "C30", "C18"],
}
DEFS = ["C44", "C18", "C15", "C30", "C19", "C35", "C37", "C42", "C40"]


def order(path):
    if "generator" in path:  # a separate program: only the property about it can tell
        return ["C16", "C32"]
    if "definitions/mod.rs" in path:
        return ["C09", "C10", "C13", "C40", "C35", "C42", "C39", "C12", "C14", "C30"]
    first = []
    for k, v in FIRST.items():
        if k in path:
            first += v
    if "/definitions/" in path and "abi" not in path:
        first += DEFS
    rest = [p for p in BASE + PROPS if p not in SLOW and p != "C28"]
    tail = SLOW + ["C28"]
    if "utils" not in path and "system_params" not in path and "decoding/" not in path:
        tail.remove("C28")
    seen, out = set(), []
    for p in first + rest + tail:
        if p in PROPS and p not in seen:
            seen.add(p)
            out.append(p)
    return out


TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\]|\\.)*"|b?\'(?:[^\'\\\n]|\\.)\'|\'\w+|0x[0-9a-fA-F_]+(?:[ui]\w+)?|\d[\d_]*(?:[ui](?:8|16|32|64|128|size))?'
                 r'|[A-Za-z_]\w*|<<=|>>=|\.\.=|\.\.|<<|>>|&&|\|\||==|!=|<=|>=|->|=>|\+=|-=|\*=|/=|%=|\^=|&=|\|=|::|.', re.S)
OPS = {"+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "%": ["/"], "&": ["|"], "|": ["&"], "^": ["|"], "<<": [">>"], ">>": ["<<"],
       "==": ["!="], "!=": ["=="], "<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "&&": ["||"], "||": ["&&"],
       "..": ["..="], "..=": [".."], "+=": ["-="], "-=": ["+="], "&=": ["|="], "|=": ["&="], "^=": ["|="], "<<=": [">>="], ">>=": ["<<="]}
WORDS = {"true": ["false"], "false": ["true"], "to_be_bytes": ["to_le_bytes"], "to_le_bytes": ["to_be_bytes"], "from_be_bytes": ["from_le_bytes"],
         "from_le_bytes": ["from_be_bytes"], "from_big_endian": ["from_little_endian"], "from_little_endian": ["from_big_endian"],
         "to_big_endian": ["to_little_endian"], "to_little_endian": ["to_big_endian"], "min": ["max"], "max": ["min"], "MAX": ["MIN"],
         "any": ["all"], "all": ["any"], "is_some": ["is_none"], "is_none": ["is_some"], "is_err": ["is_ok"], "is_ok": ["is_err"],
         "wrapping_add": ["saturating_add", "wrapping_sub"], "wrapping_sub": ["saturating_sub", "wrapping_add"],
         "overflowing_add": ["overflowing_sub"], "overflowing_sub": ["overflowing_add"],
         "checked_next_power_of_two": [], "src0": ["src1"], "src1": ["src0"], "dst0": ["dst1"], "dst1": ["dst0"],
         "imm_0": ["imm_1"], "imm_1": ["imm_0"], "src0_reg_idx": ["src1_reg_idx", "dst0_reg_idx"], "src1_reg_idx": ["src0_reg_idx", "dst1_reg_idx"],
         "dst0_reg_idx": ["dst1_reg_idx", "src0_reg_idx"], "dst1_reg_idx": ["dst0_reg_idx", "src1_reg_idx"],
         "constructor_call": ["to_system"], "to_system": ["constructor_call"], "start": ["length"], "length": ["start", "offset"], "offset": ["start"],
         "memory_page": ["start", "offset"], "u16": ["u8"], "u32": ["u16"], "u64": ["u32"], "u128": ["u64"], "insert": ["remove"],
         "src0_operand_type": ["dst0_operand_type"], "dst0_operand_type": ["src0_operand_type"], "input_operands": ["output_operands"],
         "output_operands": ["input_operands"], "minimal_version": [], "continue": ["break"], "break": ["continue"],
         "heap_size": ["aux_heap_size"], "aux_heap_size": ["heap_size"], "meta": [], "is_available_for_version": ["is_added_in_version"],
         "is_added_in_version": ["is_available_for_version"], "requires_kernel_mode": ["can_be_used_in_static_context"],
         "can_be_used_in_static_context": ["requires_kernel_mode"]}


def enums(sources):
    r = {}
    for s in sources.values():
        for m in re.finditer(r"\benum (\w+)[^{]*\{", s):
            depth, i = 1, m.end()
            while depth:
                depth += {"{": 1, "}": -1}.get(s[i], 0)
                i += 1
            body = re.sub(r"//[^\n]*", "", s[m.end():i - 1])
            body = re.sub(r"#\[[^\]]*\]", "", re.sub(r"\([^)]*\)|\{[^}]*\}", "", body))
            vs = [re.split(r"[\s=]", x.strip())[0] for x in body.split(",")]
            r[m[1]] = [v for v in vs if v]
    return r


def mutants():
    sources = {}
    for root, _, fs in os.walk("/repo/src"):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(root, f)
                sources[os.path.relpath(p, "/repo")] = open(p).read()
    E = enums(sources)
    consts = {}
    for s in sources.values():
        for m in re.finditer(r"\bconst ([A-Z][A-Z0-9_]*): ([^=]+?) =", s):
            consts.setdefault(m[2], []).append(m[1])
    other = {}
    for l in consts.values():
        l = sorted(set(l))
        for i, x in enumerate(l):
            if len(l) > 1:
                other[x] = l[(i + 1) % len(l)]
    out = []
    for path, s in sorted(sources.items()):
        cut = s.find("#[cfg(test)]")
        end = len(s) if cut < 0 else cut
        toks = [(m.group(), m.start(), m.end()) for m in TOK.finditer(s)]
        skip_until = 0
        code = [t for t in toks if not t[0].isspace() and not t[0].startswith("//") and not t[0].startswith("/*")]
        for i, (t, a, b) in enumerate(code):
            if a >= end:
                break
            if a < skip_until:
                continue
            if t == "#" and code[i + 1][0] in "[!":
                d, j = 0, i + 1
                while True:
                    d += {"[": 1, "]": -1}.get(code[j][0], 0)
                    j += 1
                    if d == 0 and code[j - 1][0] == "]":
                        break
                skip_until = code[j - 1][2]
                continue
            if t == "use" and (i == 0 or code[i - 1][0] in (";", "}", "pub", "{")):
                skip_until = s.index(";", a)
                continue
            prev = code[i - 1][0] if i else ""
            nxt = code[i + 1][0] if i + 1 < len(code) else ""
            reps = []
            if re.match(r"\d", t):
                suf = re.search(r"(?<=[\d_])[ui](8|16|32|64|128|size)$", t) if not t.startswith("0x") else None
                n = int(t[:suf.start()].replace("_", "") if suf else t.replace("_", ""), 0)
                k = suf.group() if suf else ""
                reps = [f"{n + 1}{k}"] + ([f"{n - 1}{k}"] if n else [])
            elif t in OPS:
                if t in ("<", ">", "&", "|", "-", "*"):
                    # only as a binary operator: surrounded by spaces
                    if not (s[a - 1].isspace() and s[b:b + 1].isspace()):
                        continue
                reps = OPS[t]
            elif t == "!" and re.match(r"[A-Za-z_(]", nxt) and not re.match(r"\w", prev):
                reps = [""]
            elif t in WORDS and not (prev == "fn") and not (nxt == ":" and prev in ("pub", ",", "{") and False):
                reps = WORDS[t]
            elif t in E and nxt == "::" and code[i + 2][0] in E[t]:
                v = E[t]
                k = v.index(code[i + 2][0])
                if len(v) > 1:
                    out.append((path, code[i + 2][1], code[i + 2][2], v[(k + 1) % len(v)]))
                continue
            elif t in other and prev != "const":
                reps = [other[t]]
            elif False and t.startswith('"') and len(t) > 2 and nxt != "=>" and not t.startswith('"{'):
                reps = ['"x' + t[1:]]
            for r in reps:
                out.append((path, a, b, r))
        # delete statements of one line; swap the arms' right-hand sides is left to the token mutants
        for m in re.finditer(r"^[ \t]+([^\n;{}]*;)[ \t]*$", s[:end], re.M):
            x = m[1]
            if re.match(r"(let|use|pub|const|static|type|mod|fn|//|#)\b", x) or x.startswith(("//", "#")):
                continue
            out.append((path, m.start(1), m.end(1), ""))
    return sources, out


lock = threading.Lock()


def main():
    a = sys.argv[1:]
    sources, ms = mutants()
    if "--only" in a:
        k = a[a.index("--only") + 1].split(",")
        ms = [m for m in ms if any(m[0].startswith(x) for x in k)]
    if "--list" in a:
        n = {}
        for m in ms:
            n[m[0]] = n.get(m[0], 0) + 1
        print(n, len(ms))
        return
    outp = a[0]
    i, n = map(int, a[a.index("--shard") + 1].split("/")) if "--shard" in a else (0, 1)
    done = {}
    if os.path.exists(outp):
        done = {tuple(r["key"]): r for r in json.load(open(outp))}
    todo = [m for m in ms[i::n] if tuple(m) not in done]
    import random
    random.Random(1).shuffle(todo)
    print(len(todo), "mutants", flush=True)

    def one(job):
        w, m = job
        path, s0, e0, new = m
        d = f"/tmp/mu-{w}"
        src = sources[path]
        open(f"{d}/{path}", "w").write(src[:s0] + new + src[e0:])
        env = dict(os.environ, ZKABS_DEV_REPO=d, ZKABS_DEV_EVIDENCE=d + "/ev", ZKABS_DEV_CFGS="debug")
        res, why = "survived", ""
        for p in order(path):
            try:
                r = subprocess.run([V + "/check", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res, why = "timeout " + p, ""
                break
            if r.returncode:
                why = r.stdout[:300]
                res = "built" if "does not compile" in r.stdout else f"caught {p}"
                break
        open(f"{d}/{path}", "w").write(src)
        line = src.count("\n", 0, s0) + 1
        return dict(key=list(m), file=path, line=line, old=src[s0:e0], new=new, result=res, why=why)

    par = int(os.environ.get("PAR", "4"))
    import queue
    free = queue.Queue()
    for w in range(par):
        d = f"/tmp/mu-{os.path.basename(outp)}-{w}"
        subprocess.run(["rm", "-rf", d])
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        free.put(f"{os.path.basename(outp)}-{w}")

    def go(m):
        w = free.get()
        try:
            r = one((w, m))
        finally:
            free.put(w)
        with lock:
            done[tuple(m)] = r
            json.dump(list(done.values()), open(outp, "w"))
            if not r["result"].startswith(("caught", "built")):
                print(f"{r['result']}: {r['file']}:{r['line']} {r['old']!r} -> {r['new']!r}", flush=True)

    with cf.ThreadPoolExecutor(par) as ex:
        list(ex.map(go, todo))
    n = {}
    for r in done.values():
        k = r["result"].split()[0]
        n[k] = n.get(k, 0) + 1
    print(n)
    for w in range(par):
        subprocess.run(["rm", "-rf", f"/tmp/mu-{os.path.basename(outp)}-{w}"])


main()
