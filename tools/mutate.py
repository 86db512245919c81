#!/usr/bin/env python3
"""mutate.py COUNT SEED LOG [FILE-REGEX]: small random changes to /repo's code; those that build and pass the stable
tests go through the checks of their file. Run through tools/mutate.sh (private copies of /repo and /verif)."""
import glob, json, os, random, re, subprocess, sys, time
n, seed, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
only = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
R, V = "/repo", "/verif"
CHECKS = [
    ("gmatlib/src/ffi.rs", "F01 M07"), ("gmatlib/src/error.rs", ""), ("gmatlib/src/", "M01 M02 M03 M04 M05 M06 M07 M08"),
    ("geqslib/src/context.rs", "E04 E01 E03 V01 S01"), ("geqslib/src/ffi.rs", "F01"), ("geqslib/src/lib.rs", "S02 E03"), ("geqslib/src/newton.rs", "N02 N01"),
    ("geqslib/src/shunting.rs", "E01 E03 E04 V01 E02 S01"), ("geqslib/src/system.rs", "S01 S02 V01"), ("geqslib/src/variable.rs", "V01 S02"), ("geqslib/src/errors", ""),
    ("nexsys/src/ffi.rs", "F01"), ("nexsys/src/lib.rs", "Q01"), ("nexsys/src/main.rs", "C01"), ("nexsys/src/parsing/cond", "P03"), ("nexsys/src/parsing/", "P02 P01 P03 Q01"), ("nexsys/src/units", "U01 P01"), ("nexsys/src/errors", ""),
    ("neapolitan/src/main.rs", "C02"), ("neapolitan/src/errors.rs", ""), ("neapolitan/src/", "K05 K06 K04 K07 K02 K03 K01"),
]
PAIRS = [("+", "-"), ("-", "+"), ("*", "/"), ("/", "*"), ("<", "<="), ("<=", "<"), (">", ">="), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+=")]
def code_lines(t):
    """line numbers that hold code (no comments, no test modules)"""
    out, raw = [], False
    for i, l in enumerate(t):
        s = l.strip()
        if s.startswith("#[cfg(test)]"): break
        if 'r#"' in l: raw = True
        if not (raw or not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "///", "*", "/*", "pub fn", "fn ", "impl", "pub struct", "pub enum", "where", "pub (in crate) fn", "extern", "pub unsafe"))): out.append(i)
        if '"#' in l: raw = False
    return out
def mutants():
    m = []
    for f in sorted(glob.glob(R + "/*/src/**/*.rs", recursive=True)):
        rel = f[len(R) + 1:]
        if "ngineer_js" in rel or not only.search(rel): continue
        c = next((c for p, c in CHECKS if rel.startswith(p)), "")
        if not c: continue
        t = open(f, newline="").read().split("\n")
        for i in code_lines(t):
            l = t[i]
            k = l.find("//")
            body, rest = (l, "") if k < 0 else (l[:k], l[k:])
            for a, b in PAIRS:
                for x in re.finditer(r"(?<= )" + re.escape(a) + r"(?= )", body):
                    m.append((rel, i, body[:x.start()] + b + body[x.end():] + rest))
            for x in re.finditer(r"\b(true|false)\b", body):
                m.append((rel, i, body[:x.start()] + ("false" if x.group() == "true" else "true") + body[x.end():] + rest))
            for x in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", body):
                for v in {int(x.group()) + 1, max(0, int(x.group()) - 1)} - {int(x.group())}:
                    m.append((rel, i, body[:x.start()] + str(v) + body[x.end():] + rest))
            for x in re.finditer(r"(?<![\w])(\d+\.\d+)", body):
                m.append((rel, i, body[:x.start()] + repr(float(x.group()) * 2 + 1) + body[x.end():] + rest))
            if re.match(r"\s+(if|while) ", body) and "let" not in body:
                m.append((rel, i, re.sub(r"(if|while) (.*?)(\s*\{?\s*)$", r"\1 !(\2)\3", body) + rest))
            if body.rstrip().endswith(";") and not re.match(r"\s*(let|return|use|const|static|type)\b", body) and body.count("(") == body.count(")") and "=" not in body.split("(")[0][:0]:
                m.append((rel, i, "// removed"))
            if re.match(r"\s*(continue|break);", body):
                m.append((rel, i, "{};".format("")))
            for a, b in [(".min(", ".max("), (".max(", ".min("), (".first()", ".last()"), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".trim()", ""), ("..=", ".."), (".rev()", ""), (".abs()", ""), ("get_rows", "get_cols"), ("get_cols", "get_rows"), (".any(", ".all("), (".all(", ".any("), ("inputs", "outputs"), ("outputs", "inputs"), ("input", "output"), ("INFINITY", "MAX"), (".contains(", ".starts_with("), ("is_locked", "!is_locked")]:
                for x in re.finditer(re.escape(a), body):
                    m.append((rel, i, body[:x.start()] + b + body[x.end():] + rest))
    return m, None
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def tests():
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR="/repo/target")
    with open("/tmp/mut.test", "w") as o:
        try: subprocess.run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], cwd=R, env=e, stdout=o, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired: return False
    subprocess.run(["python3", "/opt/vp/results.py", "/tmp/mut.json", "cargo:/tmp/mut.test"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try: return stable <= set(json.load(open("/tmp/mut.json"))["passed"])
    except Exception: return False
def main():
    m, _ = mutants()
    random.seed(seed); random.shuffle(m)
    L = open(log, "a")
    def say(*a):
        print(*a, file=L, flush=True)
    say("# %d possible, seed %d" % (len(m), seed))
    assert tests()
    for rel, i, new in m[:n]:
        f = os.path.join(R, rel)
        old = open(f, newline="").read()
        t = old.split("\n")
        if t[i] == new: continue
        say("? %s:%d | %s => %s" % (rel, i + 1, t[i].strip(), new.strip()))
        t[i] = new + ("\r" if t[i].endswith("\r") and not new.endswith("\r") else "")
        open(f, "w", newline="").write("\n".join(t))
        try:
            if not tests():
                say("  killed by build or tests"); continue
            hit = None
            for c in next(c for p, c in CHECKS if rel.startswith(p)).split():
                s = time.time()
                e = dict(os.environ, SX_LIMIT="600")
                try: p = subprocess.run(["bin/check", c, "quick"], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                except subprocess.TimeoutExpired: say("  timeout", c); continue
                if p.returncode == 1:
                    hit = c; v = p.stdout.split("VIOLATION", 1)[1].split("\n")
                    say("  caught by %s in %d s: %s" % (c, time.time() - s, v[1].strip()[:120])); break
                if p.returncode: say("  rc", p.returncode, c, p.stdout.strip()[-200:])
            if not hit: say("  SURVIVED")
        finally:
            open(f, "w", newline="").write(old)
    say("ALLDONE")
main()
