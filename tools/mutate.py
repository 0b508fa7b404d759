#!/usr/bin/env python3
"""Mutation campaign: mutate.py WORKER COUNT SEED [file-substring...]
Works in /tmp/mut<WORKER> on copies of /repo and the harness. Each random mutant of the library is run against the quick
checks of the file it touches; those that survive are run against the stable tests; those that survive both are logged to
/tmp/mut<WORKER>/survivors.txt for a human to look at. Not a check; nothing registered uses it."""
import sys, os, re, random, subprocess, shutil, json, time, glob
W, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ONLY = sys.argv[4:]
D = f"/tmp/mut{W}"
CH = {
 "src/fields/": ["fields:C01", "fields:C02", "algebra:C07"],
 "src/curves/": ["curves:C03", "curves:C04", "curves:C05"],
 "src/util.rs": ["algebra:C06", "algebra:C07", "algebra:C08", "ecc:C09", "fields:C01"],
 "src/rescue.rs": ["rescue:C10", "rescue:C12"],
 "src/gadgets/rescue.rs": ["gadgets:C11", "synth:C31"],
 "src/gadgets/boolean.rs": ["gadgets:C13", "gadgets:C17", "gadgets:C14", "synth:C22", "synth:C31"],
 "src/gadgets/uint": ["gadgets:C14", "gadgets:C15", "synth:C22", "synth:C31"],
 "src/gadgets/multieq.rs": ["gadgets:C14", "gadgets:C15"],
 "src/gadgets/sha256.rs": ["gadgets:C15"],
 "src/gadgets/num.rs": ["gadgets:C16", "gadgets:C11", "synth:C22", "synth:C31"],
 "src/gadgets/ecc.rs": ["ecc:C18", "ecc:C19", "ecc:C09", "synth:C22", "synth:C31"],
 "src/synthesis.rs": ["synth:C20", "synth:C21", "synth:C22", "synth:C31", "proofs:C24", "gadgets:C16"],
 "src/circuits.rs": ["synth:C20", "synth:C21", "synth:C22", "synth:C31", "gadgets:C16"],
 "src/dev.rs": ["synth:C21", "synth:C22", "synth:C31", "recursion:C29"],
 "src/proofs.rs": ["proofs:C28", "proofs:C27", "synth:C20", "proofs:C33", "proofs:C23", "proofs:C24", "proofs:C26", "proofs:C25", "synth:C31"],
 "src/recursion.rs": ["recursion:C29", "recursion:C30"],
}
def sh(c, t, cwd=None, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, ""
if not os.path.exists(D):
    os.makedirs(D)
    sh(f"cp -a /repo {D}/repo && mkdir {D}/verif && cp -a /verif/harness /verif/num_cpus_shim /verif/known_findings.txt {D}/verif/", 600)
    sh(f"sed -i 's#/repo\"#{D}/repo\"#' {D}/verif/harness/Cargo.toml; sed -i 's#/verif/target#{D}/target#' {D}/verif/harness/.cargo/config.toml; grep -rl '\"/verif\\|/repo' {D}/verif/harness/src", 60)
else:
    sh(f"cp -a /verif/harness/src {D}/verif/harness/ && cp /verif/known_findings.txt {D}/verif/", 60)
R = f"{D}/repo"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
def nontest(path):
    L = open(path).read().split("\n")
    out = []; i = 0
    skip = False
    for j, l in enumerate(L):
        if re.match(r"\s*#\[(cfg\((test|halo_verif)\)|test)\]", l): 
            # skip the item that follows, by brace matching
            depth = 0; k = j; started = False
            while k < len(L):
                depth += L[k].count("{") - L[k].count("}")
                if "{" in L[k]: started = True
                if started and depth <= 0: break
                if not started and L[k].rstrip().endswith(";"): break
                k += 1
            i = max(i, k + 1)
        if j >= i: out.append(j)
    return L, out
SWAP = [(" + ", " - "), (" - ", " + "), (" * ", " + "), (" == ", " != "), (" != ", " == "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "),
 (" && ", " || "), (" || ", " && "), (" & ", " | "), (" | ", " & "), ("true", "false"), ("false", "true"), ("::one()", "::zero()"), ("::zero()", "::one()"), ("CS::ONE", "CS::ONE + CS::ONE"),
 (" += ", " -= "), (" -= ", " += "), (" >> ", " << "), (" << ", " >> "), ("Coeff::One", "Coeff::NegativeOne"), ("Coeff::NegativeOne", "Coeff::One"), (".rev()", ""), ("!", ""), (".double()", ""), ("&&", "||"), (".square()", ""), ("-", ""), ("..=", ".."), (".skip(1)", ""), ("BETA", "ALPHA"), ("first", "last"), (" % ", " / "), (" / ", " % "), (" ^ ", " | "), ("wrapping_add", "wrapping_sub"), ("_old", "_new"), ("_new", "_cur"), ("_cur", "_old"), ("_new", "_old"), ("positive", "negative"), ("negative", "positive"), ("is_some", "is_none")]
def mutants(path, rng):
    L, ok = nontest(path)
    text = "\n".join(L)
    kind = rng.choices(["swap", "lit", "del", "ident", "delblock"], [5, 3, 3, 4, 2])[0]
    j = rng.choice(ok); l = L[j]
    code = l.split("//")[0]
    if not code.strip() or re.search(r"\|\| *(format!\()?\"|println|^\s*(use|pub use|mod|pub mod|fn|pub fn|struct|impl|trait|#|///|\})", l) and kind != "ident" and kind != "lit": return None
    code_ns = re.sub(r'"[^"]*"', lambda m: "\0" * len(m.group(0)), code)
    M = L[:]
    if kind == "swap":
        c = [(m.start(), a, b) for a, b in SWAP for m in re.finditer(re.escape(a), code_ns)]
        if not c: return None
        at, a, b = rng.choice(c)
        M[j] = l[:at] + b + l[at + len(a):]
    elif kind == "lit":
        c = list(re.finditer(r"(?<![\w.])(0x[0-9a-f_]+|\d+)(?![\w.]*\")", code_ns))
        c = [m for m in c if not re.search(r"\[u?\w*;", code_ns) or True]
        if not c: return None
        m = rng.choice(c); v = int(m.group(1).replace("_", ""), 0)
        nv = v + rng.choice([1, -1, 1, -1, 2, -v])
        if nv < 0 or nv == v: return None
        M[j] = l[:m.start()] + (hex(nv) if m.group(1).startswith("0x") else str(nv)) + l[m.end():]
    elif kind == "del":
        if not code.rstrip().endswith(";") or code.strip().startswith("let ") or code.strip().startswith("return"): return None
        # only a whole statement on one line
        if code.count("(") != code.count(")"): return None
        M[j] = ""
    elif kind == "delblock":
        # a statement over several lines
        if not re.match(r"\s*(cs\.enforce_zero|\w+(\.\w+)*\.\w+\(|self\.\w+\(|if |for )", code) or code.rstrip().endswith(";"): return None
        depth = 0; k = j
        while k < len(L):
            depth += sum(L[k].count(x) for x in "({[") - sum(L[k].count(x) for x in ")}]")
            if depth <= 0 and (L[k].rstrip().endswith(";") or L[k].rstrip().endswith("}")): break
            k += 1
            if k - j > 14: return None
        for q in range(j, k + 1): M[q] = ""
    else:
        ids = re.findall(r"[a-z_][a-z_0-9]*", " ".join(re.sub(r'"[^"]*"', "", x.split("//")[0]) for x in L[max(0, j - 6):j + 7]))
        ids = [x for x in set(ids) if x not in ("let", "mut", "fn", "for", "in", "if", "else", "match", "self", "cs", "use", "pub", "impl", "return", "while", "loop", "as", "ref", "move", "where", "format", "namespace")]
        here = [m for m in re.finditer(r"(?<![\w\"])[a-z_][a-z_0-9]*(?!\w|\!|::|\")", code_ns) if m.group(0) in ids]
        if not here or len(ids) < 2: return None
        m = rng.choice(here); n = rng.choice([x for x in ids if x != m.group(0)])
        M[j] = l[:m.start()] + n + l[m.end():]
    if M == L: return None
    return "\n".join(M), j, kind
files = [f for f in glob.glob(R + "/src/**/*.rs", recursive=True) if not f.endswith(("lib.rs", "mod.rs"))]
files += [R + "/src/fields/mod.rs", R + "/src/curves/mod.rs"]
files = [f for f in files if not ONLY or any(o in f for o in ONLY)]
rng = random.Random(SEED)
sizes = [len(nontest(f)[1]) ** 0.7 for f in files]
log = open(f"{D}/log.txt", "a")
def say(*a):
    print(*a, file=log, flush=True)
done = 0
sh("git checkout -- .", 60, R)
while done < N:
    f = rng.choices(files, sizes)[0]
    rel = os.path.relpath(f, R)
    m = mutants(f, rng)
    if not m: continue
    orig = open(f).read()
    text, line, kind = m
    open(f, "w").write(text)
    rc, o = sh("RUSTFLAGS='--cfg halo_verif -Awarnings' cargo check --offline --lib --target-dir %s/chk" % D, 300, R)
    if rc != 0:
        open(f, "w").write(orig); continue
    checks = next(v for k, v in CH.items() if rel.startswith(k))
    bins = " ".join("--bin " + b for b in sorted({c.split(":")[0] for c in checks}))
    rc, o = sh("cargo build --release --offline " + bins, 600, f"{D}/verif/harness")
    if rc != 0:
        open(f, "w").write(orig); continue
    done += 1
    diff = sh("git diff -U1", 30, R)[1]
    short = "\n".join(x for x in diff.split("\n") if x[:1] in "+-" and x[:3] not in ("+++", "---"))
    checks = next(v for k, v in CH.items() if rel.startswith(k))
    killed = None
    t0 = time.time()
    for c in checks:
        b, i = c.split(":")
        rc, o = sh(f"{D}/target/release/{b} {i}", 400, D, {"VERIF_DIR": f"{D}/verif", "VERIF_SHRINK_S": "0", "VERIF_SEED": "1", "VERIF_HANG_S": "120"})
        if rc != 0:
            killed = f"{i} rc={rc}" + ("" if "VIOLATION" in o else " NO-LINE"); break
    if killed:
        say(f"KILLED {killed} {rel}:{line+1} {kind} {time.time()-t0:.0f}s | {short!r}")
    else:
        rc, o = sh(f"bash -c 'export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only; timeout 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {D}/t.log 2>&1; python3 /opt/vp/results.py {D}/t.json cargo:{D}/t.log'", 900, R)
        bad = []
        try:
            res = json.load(open(f"{D}/t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            say("keys", list(res)[:3], list(base)[:5]) if done == 1 else None
            passed = set(res.get("passed", []))
            stable = set(base.get("stable", base.get("stable_pass", base.get("passed", []))))
            bad = sorted(stable - passed)
        except Exception as e:
            bad = [repr(e)]
        if bad:
            say(f"TESTS {rel}:{line+1} {kind} {len(bad)} e.g. {bad[0]} | {short!r}")
        else:
            say(f"SURVIVED {rel}:{line+1} {kind} {time.time()-t0:.0f}s | {short!r}")
            open(f"{D}/survivors.txt", "a").write(f"--- {rel}:{line+1} {kind}\n{diff}\n")
    open(f, "w").write(orig)
say("done")
