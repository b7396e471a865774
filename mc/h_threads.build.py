# Every module of the library and the workloads are compiled with every memory access instrumented (the callbacks are in
# h_threads.c), their calls of the C library redirected there too, and their static data gathered in sections of its own.
_redir = "malloc calloc realloc free strdup strndup memcpy memmove memset memcmp memchr strlen strcmp strncmp strchr strrchr strcpy strncpy strcat strncat strtok snprintf sprintf vsnprintf vsprintf strtol strtoul strtoll strtoull strtod atoi rand srand pthread_mutex_lock".split()
with open(os.path.join(d, "redir"), "w") as _f:
    for _x in _redir: _f.write("%s mt_%s\n" % (_x, _x))
_inst = ["-fsanitize=thread", "-fno-builtin", "-fno-stack-protector", "-U_FORTIFY_SOURCE"]
_objs = []; _jobs = []; _mods = []
for _m in MODDIRS:
    for _s in sorted(glob.glob(os.path.join(repo, _m, "*.c"))):
        _o = os.path.join(d, _m + "_" + os.path.basename(_s)[:-2] + ".o"); _objs.append(_o); _mods.append(_o)
        _jobs.append(["gcc"] + CFLAGS + _inst + incs(repo) + ["-c", _s, "-o", _o])
_o = os.path.join(d, "h_threads_w.o"); _objs.append(_o); _mods.append(_o)
_jobs.append(["gcc", "-std=gnu11"] + CFLAGS + _inst + incs(repo) + ["-c", os.path.join(ROOT, "mc", "h_threads_w.c"), "-o", _o])
for _s in ("h_threads.c", "mc.c"):
    _o = os.path.join(d, _s[:-2] + ".o"); _objs.append(_o)
    _jobs.append(["gcc", "-std=gnu11"] + CFLAGS + incs(repo) + ["-c", os.path.join(ROOT, "mc", _s), "-o", _o])
par(_jobs)
par([["objcopy", "--redefine-syms=" + os.path.join(d, "redir"), "--rename-section", ".data=libdata", "--rename-section", ".data.rel.local=libdata", "--rename-section", ".data.rel=libdata", "--rename-section", ".bss=libbss", _o] for _o in _mods])
exe = os.path.join(d, "h_threads")
sh(["gcc", "-o", exe] + _objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lm", "-lpthread"])
