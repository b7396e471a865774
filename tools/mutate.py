#!/usr/bin/env python3
"""tools/mutate.py [-j N] [-o OUT] [-s SKIP_EVERY] FILE...: systematic small mutations of source files of /repo. Each mutant that compiles to
different code and passes the module's unit test is run through the quick checks of the module (from a copy of /verif) until one
reports a violation; survivors are listed in OUT. Development only: no check uses it."""
import os, re, subprocess, sys, tempfile, shutil, threading, queue, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = {
 "data/buffer.c": ("buffer", "C01 C02 C03 C04 C41"), "data/buffer.h": ("buffer", "C01 C02 C03 C04 C41"),
 "data/htable.c": ("htable", "C05 C06 C43 C41"), "data/htable.h": ("htable", "C05 C06 C43 C41"),
 "data/list.h": ("list", "C07 C08"),
 "data/rbtree.c": ("rbtree", "C09 C10 C11 C12"), "data/rbtree.h": ("rbtree", "C09 C10 C11 C12"),
 "data/value.c": ("value", "C17 C18 C20 C16 C15 C22 C21 C19 C13 C14 C41 C39"), "data/value.h": ("value", "C17 C18 C20 C16 C15 C22 C21 C19 C13 C14 C41"),
 "encode/base64.c": ("base64", "C23 C24 C25 C39"), "encode/base64.h": ("base64", "C23 C24 C25"), "encode/hex.c": ("hex", "C26 C27 C39"),
 "hash/crc32.c": ("crc32", "C28"), "hash/fnv1a.c": ("fnv1a", "C29"), "hash/fnv1a.h": ("fnv1a", "C29"),
 "mem/malloca.h": ("malloca", "C30"), "mem/memchunk.c": ("memchunk", "C31 C32 C42"), "mem/memchunk.h": ("memchunk", "C31 C32 C42"),
 "misc/cmdline.c": ("cmdline", "C33 C34 C39"), "misc/defs.h": ("defs", "C35"),
 "win32/memstream.c": (None, "C36 C37 C40 C38"),
}
OPS = [
 (r"(?<![<>=!\-&|+*/])<(?![<=])", ["<="]), (r"<=", ["<", "=="]), (r"(?<![<>=!\-])>(?![>=])", [">="]), (r"(?<!>)>=", [">", "=="]),
 (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
 (r"(?<![+\w.(,=] )(?<!\+)\+(?![+=])", ["-"]), (r"(?<=[\w)\]] )-(?![-=>])", ["+"]), (r"\+\+", ["--"]), (r"(?<!-)--(?!-)", ["++"]),
 (r"\+=", ["-=", "="]), (r"-=", ["+=", "="]), (r"(?<=[\w)] )\*(?= )", ["/", "+"]), (r"(?<=[\w)] )/(?= )", ["*"]), (r"(?<=[\w)] )%(?= )", ["/"]),
 (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<=[\w)] )&(?= )", ["|"]), (r"(?<=[\w)] )\|(?= )", ["&"]), (r"\|=", ["&=", "="]), (r"&=", ["|=", "="]), (r"\^", ["|"]),
 (r"!(?=[\w(])", [""]), (r"~", [""]),
 (r"\b\d+\b(?![.\w])", ["+1", "-1"]), (r"\b0x[0-9a-fA-F]+\b", ["+1", "-1"]),
 (r"\bbreak;", [";"]), (r"\bcontinue;", ["break;"]), (r"\breturn 0;", ["return -1;"]), (r"\breturn -1;", ["return 0;"]),
 (r"\breturn (?!0;|-1;|NULL;)[^;]+;", ["return 0;"]), (r"\breturn NULL;", [";"]), (r"\bsizeof\(void\*\)", ["sizeof(int)"]),
 (r"\bINT32_MAX\b", ["(INT32_MAX-1)"]), (r"\bSIZE_MAX\b", ["(SIZE_MAX-1)", "(SIZE_MAX/2)"]), (r"\bUINT\d+_MAX\b", ["INT32_MAX"]),
 (r"\bsize_t\b", ["unsigned"]), (r"\buint8_t\b", ["int8_t"]), (r"\buint32_t\b", ["int32_t"]), (r"\bint64_t\b", ["int32_t"]), (r"\buint64_t\b", ["uint32_t"]), (r"\bunsigned char\b", ["signed char"]),
]
def mask(text):
    def sp(m): return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', sp, text, flags=re.S)
def mutants(f):
    t = open(f).read(); m = mask(t); out = []
    pos = 0
    for ln, (l, ml) in enumerate(zip(t.splitlines(True), m.splitlines(True)), 1):
        def add(a, b, r): out.append((ln, pos + a, pos + b, r, l.strip()))
        s = ml.strip()
        inc = s.startswith("#include") or s.startswith("#if") or s.startswith("#endif") or s.startswith("#else") or s.startswith("#error") or s.startswith("extern")
        if s and not inc:
            for rx, reps in OPS:
                for k in re.finditer(rx, ml):
                    for r in reps:
                        if r in ("+1", "-1") and k.group(0)[0].isdigit():
                            v = int(k.group(0), 0) + int(r)
                            if v < 0: continue
                            r = str(v)
                        add(k.start(), k.end(), r)
            k = re.match(r"\s*(?:else )?if\((.*)\)( \{)?\s*(\\)?$", ml.rstrip("\n"))
            if k: add(k.start(1), k.end(1), "0"); add(k.start(1), k.end(1), "1")
            k = re.match(r"\s*(?!return\b|break\b|goto\b|else\b|#)([A-Za-z_*(&][^;{}]*[(=][^;{}]*|[\w\->\[\]().*]+(\+\+|--));\s*(\\)?$", ml.rstrip("\n"))
            if k and not re.match(r"\s*(const |static |struct |unsigned |uint\d+_t |int\d*(_t)? |size_t |char |VALUE\* ?\w+ ?=|typedef )", ml) and l.count("(") == l.count(")"): add(k.start(1), k.end(1), "")
        pos += len(l)
    return t, out
def sh(c, to=600, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=to, **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "timeout", "")
def main():
    a = sys.argv[1:]; J = 3; out = "/tmp/mutants.txt"; every = 1; first = 0
    while a and a[0].startswith("-"):
        o = a.pop(0); v = a.pop(0)
        if o == "-j": J = int(v)
        if o == "-o": out = v
        if o == "-s": every = int(v)
        if o == "-f": first = int(v)
    q = queue.Queue(); lock = threading.Lock(); stat = {}
    for f in a:
        t, ms = mutants("/repo/" + f)
        for i, mu in enumerate(ms):
            if i % every == 0 and i >= first: q.put((f, i, len(ms), t, mu))
    log = open(out, "a"); t0 = time.time()
    def worker(w):
        d = tempfile.mkdtemp(prefix="mut"); repo = d + "/repo"; ver = d + "/verif"
        sh(f"cp -a /repo {repo}; rm -rf {repo}/_build {repo}/.git; mkdir {ver}; cp -a {V}/bin {V}/mc {V}/MANIFEST.json {V}/properties.jsonl {V}/known_findings.txt {V}/tools {ver}/")
        base = {}
        def objhash(f, mod):
            srcs = [f] if f.endswith(".c") else [f"tests/test-{mod}.c"]
            r = sh(f"cd {repo} && gcc -O2 -w -DCRE_TEST -Idata -Iencode -Ihash -Imem -Imisc {'-I/verif/mc/win32shim -I.' if f.startswith('win32') else ''} -c {srcs[0]} -o {d}/o.o && objcopy -O binary --remove-section=.note* {d}/o.o {d}/o.bin 2>/dev/null; objdump -drs --no-show-raw-insn -j .text -j .rodata -j .data {d}/o.o | tail -n +4 | md5sum")
            if r.returncode or not os.path.exists(d + "/o.o"): return None
            h = r.stdout; os.unlink(d + "/o.o"); return h
        while True:
            try: f, i, n, t, (ln, s, e, r, line) = q.get_nowait()
            except queue.Empty: break
            mod, props = MODS[f]
            try:
                if f not in base: base[f] = objhash(f, mod)
                open(f"{repo}/{f}", "w").write(t[:s] + r + t[e:])
                res = None
                h = objhash(f, mod)
                if h is None: res = "nocompile"
                elif h == base[f] and f != "misc/defs.h": res = "same-code"
                elif mod:
                    extra = f if f.endswith(".c") else (f[:-2] + ".c" if os.path.exists(f"{repo}/{f[:-2]}.c") else "")
                    c = sh(f"cd {repo} && gcc -g -w -DCRE_TEST -Idata -Iencode -Ihash -Imem -Imisc -o {d}/t tests/test-{mod}.c {extra} -lm && (ulimit -v 4000000; timeout 30 {d}/t) >/dev/null 2>&1 </dev/null", 60)
                    if c.returncode: res = "tests"
                if res is None:
                    for p in props.split():
                        c = sh(f"MC_REPO={repo} timeout 400 {ver}/bin/check {p} quick", 420)
                        if c.returncode == 1 and "VIOLATION property=" in c.stdout: res = "caught " + p; break
                        if c.returncode != 0: res = f"EXIT {c.returncode} {p}"; break
                    else: res = "SURVIVED"
                with lock:
                    k = res.split()[0]; stat[k] = stat.get(k, 0) + 1
                    log.write(f"{f}:{ln} #{i}/{n} [{t[s:e]} -> {r}] {res} | {line}\n"); log.flush()
            finally:
                open(f"{repo}/{f}", "w").write(t)
        shutil.rmtree(d)
    th = [threading.Thread(target=worker, args=(w,)) for w in range(J)]
    for x in th: x.start()
    for x in th: x.join()
    log.write(f"# {' '.join(a)}: {stat} {time.time()-t0:.0f} s\n"); log.close()
if __name__ == "__main__": main()
