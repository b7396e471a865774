# win32/memstream.c, unmodified, against the shim headers
_shim = os.path.join(ROOT, "mc", "win32shim")
_inc = ["-I", os.path.join(ROOT, "mc"), "-I", _shim, "-I", os.path.join(repo, "win32"), "-I", os.path.join(repo, "misc")]
_srcs = [(os.path.join(repo, "win32", "memstream.c"), CFLAGS + SAN), (os.path.join(_shim, "shim.c"), CFLAGS), (os.path.join(ROOT, "mc", "h_memstream.c"), ["-std=gnu11"] + CFLAGS + SAN), (os.path.join(ROOT, "mc", "mc.c"), ["-std=gnu11"] + CFLAGS)]
_objs = []; _jobs = []
for _s, _f in _srcs:
    _o = os.path.join(d, os.path.basename(_s)[:-2] + ".o"); _objs.append(_o)
    _jobs.append(["gcc"] + _f + _inc + ["-c", _s, "-o", _o])
par(_jobs)
exe = os.path.join(d, "h_memstream")
sh(["gcc"] + SAN + ["-o", exe] + _objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lm", "-lpthread"])
