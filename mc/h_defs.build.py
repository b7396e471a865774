# misc/defs.h only. Operands which are assignments are a family of their own: if a macro does not parenthesise its operands
# they may not even compile; then the rest is still explored, and that family is reported as broken.
_mc = os.path.join(ROOT, "mc")
def _obj(src, extra): o = os.path.join(d, os.path.basename(src)[:-2] + ".o"); sh(["gcc", "-std=gnu11"] + CFLAGS + extra + incs(repo) + ["-c", src, "-o", o]); return o
_objs = [_obj(os.path.join(_mc, "mc.c"), [])]
try: _objs.append(_obj(os.path.join(_mc, "h_defs.c"), SAN))
except BuildError: _objs.append(_obj(os.path.join(_mc, "h_defs.c"), SAN + ["-DASSIGNMENTS_REJECTED"]))
exe = os.path.join(d, "h_defs")
sh(["gcc"] + SAN + ["-o", exe] + _objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lm", "-lpthread"])
