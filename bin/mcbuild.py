import glob, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
class BuildError(Exception): pass
# property -> harness programs
PROPS = {}
for h, ps in {
    "h_buffer": "C01 C02 C03 C04",
    "h_htable": "C05 C06",
    "h_list": "C07 C08",
    "h_rbtree": "C09 C10 C11 C12",
    "h_value_num": "C13 C14",
    "h_value_str": "C15",
    "h_value_array": "C16",
    "h_value_dict": "C17 C18 C19",
    "h_value_path": "C20 C21",
    "h_value_tree": "C22",
    "h_codec": "C23 C24 C25 C26 C27",
    "h_hash": "C28 C29",
    "h_malloca": "C30",
    "h_memchunk": "C31 C32 C42",
    "h_cmdline": "C33 C34",
    "h_defs": "C35",
    "h_memstream": "C36 C37 C40",
    "h_refcount": "C38",
    "h_threads": "C39",
    "h_growth": "C41 C43",
    "h_readonly": "C44",
    "h_huge": "C01 C02 C03 C04 C15 C30 C31 C32 C42",
}.items():
    for p in ps.split(): PROPS.setdefault(p, []).append(h)
MODDIRS = ["data", "encode", "hash", "mem", "misc"]
WRAPS = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "reallocarray", "aligned_alloc", "posix_memalign"]
ASSUMPTIONS = [
    "gcc on x86-64 Linux, -O1 -DCRE_TEST with AddressSanitizer; other compilers and word sizes are not explored",
    "exhaustive only within the bounds stated per unit; payload bytes are assumed not to influence control flow where the canonical state ignores them",
    "the C library, the compiler and AddressSanitizer are trusted",
]
CFLAGS = ["-g", "-O1", "-fno-omit-frame-pointer", "-fwrapv", "-DCRE_TEST", "-w"]
SAN = ["-fsanitize=address"]
# overflowing loop counters have to fail, not to be rescued by what the optimizer makes of undefined behaviour
WRAPS_OF = {"h_huge": ["memcpy", "memmove", "memset"]}
# further translation units of a harness
UNITS = {h: [("offs", ["-DMOD=%d" % m, "-DOFFS=%d" % i]) for i in range(3)] for h, m in (("h_list", 1), ("h_htable", 2), ("h_rbtree", 3))}
EXTRA = {"h_hash": ["-fwrapv"], "h_huge": ["-U_FORTIFY_SOURCE"]}
def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0: raise BuildError("$ %s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")))
def incs(repo): return ["-I", os.path.join(ROOT, "mc")] + sum([["-I", os.path.join(repo, d)] for d in MODDIRS], [])
def par(jobs):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for _ in ex.map(sh, jobs): pass
def build(h, repo, bdir):
    """Compile every library source of the working tree plus the harness; returns the path of the executable."""
    d = os.path.join(bdir, h); os.makedirs(d)
    special = os.path.join(ROOT, "mc", h + ".build.py")
    if os.path.exists(special):
        ns = dict(ROOT=ROOT, repo=repo, d=d, sh=sh, par=par, CFLAGS=CFLAGS, SAN=SAN, WRAPS=WRAPS, MODDIRS=MODDIRS, incs=incs, BuildError=BuildError, os=os, glob=glob)
        exec(compile(open(special).read(), special, "exec"), ns)
        return ns["exe"]
    objs = []; jobs = []
    for m in MODDIRS:
        for src in sorted(glob.glob(os.path.join(repo, m, "*.c"))):
            o = os.path.join(d, m + "_" + os.path.basename(src)[:-2] + ".o"); objs.append(o)
            jobs.append(["gcc"] + CFLAGS + EXTRA.get(h, []) + SAN + incs(repo) + ["-c", src, "-o", o])
    for src in (os.path.join(ROOT, "mc", h + ".c"), os.path.join(ROOT, "mc", "mc.c")):
        o = os.path.join(d, os.path.basename(src)[:-2] + ".o"); objs.append(o)
        jobs.append(["gcc", "-std=gnu11"] + CFLAGS + (SAN if not src.endswith("/mc.c") else []) + incs(repo) + ["-c", src, "-o", o])
    for i, (u, fl) in enumerate(UNITS.get(h, [])):
        o = os.path.join(d, "%s.%d.o" % (u, i)); objs.append(o)
        jobs.append(["gcc", "-std=gnu11"] + CFLAGS + fl + SAN + incs(repo) + ["-c", os.path.join(ROOT, "mc", u + ".c"), "-o", o])
    par(jobs)
    exe = os.path.join(d, h)
    sh(["gcc"] + SAN + ["-o", exe] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS + WRAPS_OF.get(h, [])), "-lm", "-lpthread"])
    return exe
