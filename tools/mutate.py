#!/usr/bin/env python3
"""Development tool: first-order mutants of the sources; which of those that the existing tests let through are caught by a check.

mutate.py parse|protox OUT.jsonl [WORKERS] [FILTER]
Everything happens in copies under /tmp/mut. Results are appended to OUT.jsonl; mutants already in it are skipped.
"""
import os, re, sys, json, subprocess, shutil, threading, queue, random, hashlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSE = ["lex/mod.rs", "parse/mod.rs", "parse/comments.rs", "generate/mod.rs", "generate/lines.rs", "ast/mod.rs", "case.rs", "error.rs", "lib.rs", "tag.rs"]
PROTOX = ["compile/mod.rs", "error.rs", "file/mod.rs", "file/chain.rs", "file/descriptor_set.rs", "file/google.rs", "file/include.rs", "lib.rs", "main.rs"]
ORDER = {"parse": "C05 C15 C12 C04 C13 C02 C09 C08 C03 C07 C16 C10 C11 C06 C01 C14 C17 C18".split(),
         "protox": "C27 C28 C29 C21 C30 C31 C23 C20 C26 C25 C24 C22".split()}

_P = {}
def pristine(f):
    if f not in _P:
        _P[f] = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
    return _P[f]

def mutants(side):
    base = "protox-parse/src/" if side == "parse" else "protox/src/"
    for f in PARSE if side == "parse" else PROTOX:
        src = pristine(base + f)
        lines = src.split("\n")
        # leave out test functions at the end of files
        stop = len(lines)
        for i, l in enumerate(lines):
            if l.strip() == "#[test]" or re.match(r"#\[cfg\(test\)\]", l) and i + 1 < len(lines) and "{" in lines[i + 1]:
                stop = i
                break
        for i, l in enumerate(lines[:stop]):
            s = l.strip()
            if s.startswith("//") or "debug_assert" in s or not s or s.startswith("use ") or s.startswith("#!["):
                continue
            seen = set()
            def m(new, kind):
                if new != l and new not in seen:
                    seen.add(new)
                    return [(base + f, i, new, kind)]
                return []
            def at(pat, rep, kind):
                for x in re.finditer(pat, l):
                    r = x.expand(rep) if isinstance(rep, str) else rep(x)
                    yield from m(l[:x.start()] + r + l[x.end():], kind)
            code = re.sub(r'"(\\.|[^"\\])*"', lambda x: '"' + " " * (len(x.group(0)) - 2) + '"', l)
            yield from at(r"==", "!=", "eq")
            yield from at(r"!=", "==", "ne")
            yield from at(r"&&", "||", "and")
            yield from at(r"\|\|(?=[^|]*[a-z])(?! )", "|| ", "x") if False else []
            yield from at(r" \|\| ", " && ", "or")
            yield from at(r" < ", " <= ", "lt")
            yield from at(r" > ", " >= ", "gt")
            yield from at(r" <= ", " < ", "le")
            yield from at(r" >= ", " > ", "ge")
            yield from at(r" \+ ", " - ", "plus")
            yield from at(r" - ", " + ", "minus")
            yield from at(r"\+= ", "-= ", "pluseq")
            yield from at(r"\btrue\b", "false", "true")
            yield from at(r"\bfalse\b", "true", "false")
            yield from at(r"(?<![\w.])(\d+)(?![\w.])", lambda x: str(int(x.group(1)) + 1), "const+")
            yield from at(r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda x: str(int(x.group(1)) - 1), "const-")
            yield from at(r"\bif !", "if ", "not")
            yield from at(r"\bif (?!let|!)", "if !", "if")
            yield from at(r"\.is_some\(\)", ".is_none()", "some")
            yield from at(r"\.is_none\(\)", ".is_some()", "none")
            yield from at(r"\.is_empty\(\)", ".is_empty() == false", "empty")
            yield from at(r"\.any\(", ".all(", "any")
            yield from at(r"\.all\(", ".any(", "all")
            yield from at(r"\.first\(\)", ".last()", "first")
            yield from at(r"\.last\(\)", ".first()", "last")
            yield from at(r"\bstarts_with\(", "ends_with(", "starts")
            yield from at(r"\bends_with\(", "starts_with(", "ends")
            yield from at(r"\.start\b", ".end", "start")
            yield from at(r"\.end\b", ".start", "end")
            yield from at(r"peek_skip_comments\(\)", "peek()", "peekskip")
            yield from at(r"self\.peek\(\)", "self.peek_skip_comments()", "peek")
            yield from at(r"self\.peek_comments\(\)", "self.peek_skip_comments()", "peekc")
            yield from at(r"Token::(\w+)(?:\(_\))? \| ", "", "alt")
            yield from at(r" \| Token::(\w+)(?:\(_\))?", "", "alt")
            yield from at(r"Some\(([^()]*|[^()]*\([^()]*\)[^()]*)\),?$", lambda x: "None," if x.group(0).endswith(",") else "None", "some->none")
            yield from at(r"(\w+)_span\b", lambda x: None or x.group(0), "x") if False else []
            yield from at(r"\.skip\(\d+\)", "", "skip")
            yield from at(r"\.rev\(\)", "", "rev")
            yield from at(r"\.clone\(\)\)", ".clone())", "x") if False else []
            yield from at(r"\bcontinue\b", "break", "continue")
            yield from at(r"\bbreak\b(?=[;,])", "continue", "break")
            yield from at(r"i32::MAX", "i32::MIN", "imax")
            yield from at(r"i64::MAX", "i64::MIN", "lmax")
            yield from at(r"FieldScope::(Message|Oneof|Extend)\b", lambda x: "FieldScope::" + {"Message": "Oneof", "Oneof": "Extend", "Extend": "Message"}[x.group(1)], "scope")
            yield from at(r"Syntax::Proto2", "Syntax::Proto3", "syntax")
            yield from at(r"Syntax::Proto3", "Syntax::Proto2", "syntax")
            # regular expressions of the lexer
            if "regex(" in l or "token(" in l or "skip r" in l:
                yield from at(r"\+(?=[\"(?\[.]|$)", "*", "re+")
                yield from at(r"\*(?=[\"(?\[.]|$)", "+", "re*")
                yield from at(r"\?(?=[\"(?\[.f]|$)", "", "re?")
                yield from at(r"0-9", "1-9", "re09")
                yield from at(r"1-9", "0-9", "re19")
                yield from at(r"0-7", "0-8", "re07")
                yield from at(r"\[xX\]", "[x]", "rex")
                yield from at(r"\[eE\]", "[e]", "ree")
                yield from at(r"\[fF\]", "[f]", "ref")
                yield from at(r"A-Fa-f", "a-f", "reaf")
                yield from at(r"A-Za-z", "a-z", "reaz")
                yield from at(r"\\[tvfrx]", "", "reesc")
                if s.startswith("#[regex"):
                    yield from m("", "redel")
            # what the messages list
            yield from at(r'unexpected_token\("([^"]*), ([^",]*)"\)', r'unexpected_token("\1")', "msg") 
            yield from at(r'unexpected_token\("([^"]*) or ([^"]*)"\)', r'unexpected_token("\1")', "msg")
            yield from at(r"'(\w+)'(?=[^\n]*\")", r"'\1x'", "quoted") if '"' in l else []
            # whole one-line statements and match arms
            if re.match(r"^[a-z_:.]+.*;$", s) and not re.match(r"^(let|return|break|continue|use|pub|mod|const|type|extern)\b", s) and s.count("(") == s.count(")"):
                yield from m("", "del")
            if re.match(r"^.*=> .*,$", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                yield from m("", "delarm")
            if re.match(r"^\| [\w:]+(\(_\))?$", s):
                yield from m("", "delalt")
        # two adjacent single-line statements swapped
        for i in range(stop - 1):
            a, b = lines[i], lines[i + 1]
            if a.strip().endswith(";") and b.strip().endswith(";") and len(a) - len(a.lstrip()) == len(b) - len(b.lstrip()) and a.strip().startswith(("self.", "let ")) and b.strip().startswith("self."):
                yield (base + f, i, b + "\n" + a, "swap")

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run("ulimit -v 12000000; " + cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"

def setup(w, side):
    D = f"/tmp/mut/{side}{w}"
    R, V = D + "/repo", D + "/verif"
    os.makedirs(D, exist_ok=True)
    shutil.rmtree(R, ignore_errors=True); os.makedirs(R)
    sh(f"git -C /repo archive HEAD | tar x -C {R}")
    shutil.rmtree(V + "/mc", ignore_errors=True); os.makedirs(V, exist_ok=True)
    sh(f"git -C {ROOT} archive HEAD | tar x -C {V}")
    sh(f"grep -rl /repo {V}/mc | xargs sed -i 's#/repo/#{R}/#g'")
    sh(f"ln -sfn {R} {V}/repo")
    P = D + "/pt"
    os.makedirs(P, exist_ok=True)
    if side == "protox":
        s = open("/tmp/pt/Cargo.toml").read().replace("/repo/", R + "/")
        open(P + "/Cargo.toml", "w").write(s)
        shutil.copy("/tmp/pt/Cargo.lock", P + "/Cargo.lock")
        for x in ("protobuf", "tests"):
            shutil.rmtree(f"{P}/{x}", ignore_errors=True); shutil.copytree(f"/tmp/pt/{x}", f"{P}/{x}")
        sh(f"bash {V}/mc/compile/prepare.sh")
    return D

def one(D, side, mu):
    R, V, P = D + "/repo", D + "/verif", D + "/pt"
    f, i, new, kind = mu
    p = f"{R}/{f}"
    orig = pristine(f)
    lines = orig.split("\n")
    n = new.count("\n") + 1 if kind == "swap" else 1
    old = "\n".join(lines[i:i + n])
    lines[i:i + n] = [new]
    open(p, "w").write("\n".join(lines))
    try:
        shutil.rmtree(R + "/protox-parse/proptest-regressions", ignore_errors=True)
        r = dict(file=f, line=i + 1, kind=kind, old=old.strip(), new=new.strip())
        if side == "parse":
            rc, out = sh("timeout 120 cargo test -p protox-parse --offline -- --test-threads 4", cwd=R, env={"CARGO_TARGET_DIR": D + "/tt"})
        else:
            rc = 0  # the stable tests do not cover protox
        if rc:
            r["result"] = "nobuild" if "could not compile" in out else "tests"
            return r
        crate = "parse" if side == "parse" else "compile"
        rc, out = sh(f"cargo build --offline --manifest-path {V}/mc/{crate}/Cargo.toml", env={"CARGO_TARGET_DIR": f"{V}/target/{crate}", "CARGO_INCREMENTAL": "0"})
        if rc:
            r["result"] = "nobuild"; return r
        for c in ORDER[side]:
            rc, out = sh(f"timeout 600 {V}/target/{crate}/debug/mc-{crate} check {c} quick {V}", cwd=V)
            if rc:
                r["result"] = "caught"; r["by"] = c; r["rc"] = rc
                r["why"] = out[-300:]
                return r
        r["result"] = "MISSED"
        return r
    finally:
        open(p, "w").write(orig)

def main():
    side, out = sys.argv[1], sys.argv[2]
    W = int(sys.argv[3]) if len(sys.argv) > 3 else 2
    flt = sys.argv[4] if len(sys.argv) > 4 else ""
    ms = [m for m in mutants(side) if flt in m[0]]
    done = set()
    random.seed(1)
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[2].strip()) not in done]
    random.Random(1).shuffle(ms)
    print(len(ms), "mutants", flush=True)
    if W == 0:
        return
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    def work(w):
        D = setup(w, side)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            r = one(D, side, m)
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
