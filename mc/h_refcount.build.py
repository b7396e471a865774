# win32/memstream.c, unmodified, with every memory access instrumented (the callbacks are the scheduler in h_refcount.c)
# and with its calls of the C library redirected to the harness
_shim = os.path.join(ROOT, "mc", "win32shim")
_inc = ["-I", os.path.join(ROOT, "mc"), "-I", _shim, "-I", os.path.join(repo, "win32"), "-I", os.path.join(repo, "misc")]
_srcs = [(os.path.join(repo, "win32", "memstream.c"), CFLAGS + ["-fsanitize=thread", "-fno-builtin", "-fno-omit-frame-pointer"]), (os.path.join(_shim, "shim.c"), CFLAGS), (os.path.join(ROOT, "mc", "h_refcount.c"), ["-std=gnu11"] + CFLAGS), (os.path.join(ROOT, "mc", "mc.c"), ["-std=gnu11"] + CFLAGS)]
_objs = []; _jobs = []
for _s, _f in _srcs:
    _o = os.path.join(d, os.path.basename(_s)[:-2] + ".o"); _objs.append(_o)
    _jobs.append(["gcc"] + _f + _inc + ["-c", _s, "-o", _o])
par(_jobs)
sh(["objcopy"] + sum([["--redefine-sym", "%s=rc_%s" % (x, x)] for x in ["malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset"]], []) + [os.path.join(d, "memstream.o")])
exe = os.path.join(d, "h_refcount")
sh(["gcc", "-o", exe] + _objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lm", "-lpthread"])
