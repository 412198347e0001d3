"""Builds the symbolic and the native form of a harness from /repo's sources."""
import os, re, subprocess, hashlib, json, threading, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SRC = os.path.join(REPO, "src")
NCPU = os.cpu_count() or 4
ENV = dict(os.environ, LC_ALL="C")

EXCLUDE = ("/jni/", "/test/", "viriatum/viriatum.c", "_win32.c", "main.c", "/platform/")
MODULE_SRC = {"mod_gif": [], }

class BuildError(Exception):
    pass

def run(cmd, timeout=120, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, **kw)
    return p.returncode, p.stdout.decode("utf-8", "replace")

def sources(base=SRC):
    out = []
    for root in ("viriatum_commons", "viriatum"):
        for d, _, fs in os.walk(os.path.join(base, root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(".c") and not any(x in p for x in EXCLUDE):
                    out.append(p)
    return sorted(out)

def cflags(defs, src=None, base=SRC):
    root = []
    for r in ("viriatum_commons", "viriatum"):
        if src and src.startswith(os.path.join(base, r) + "/"):
            root = ["-I" + os.path.join(base, r)]
    return ["-D" + d for d in defs] + root + ["-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-I" + os.path.join(HARNESS, "config"), "-I" + base, "-I" + HARNESS, "-w",
            "-include", os.path.join(HARNESS, "vf_redirect.h")]

class Graph:
    """function-level reference graph of the project, from relocatable objects"""
    def __init__(self, work, defs, extra_src=(), base=SRC):
        self.base = base
        self.work = work
        self.defs = list(defs)
        self.srcs = sources(base) + list(extra_src)
        self.nodes = {}      # (obj, sym) -> set of referenced symbol names
        self.globals = {}    # symbol -> obj
        self.failed = {}
        self.obj2src = {}
        os.makedirs(os.path.join(work, "o"), exist_ok=True)
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(self._one, self.srcs))

    def _one(self, src):
        name = re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/"))
        obj = os.path.join(self.work, "o", name + ".o")
        rc, out = run(["gcc", "-std=gnu11", "-O0", "-fno-inline", "-fno-builtin", "-ffunction-sections", "-fdata-sections", "-c", src, "-o", obj] + cflags(self.defs, src, self.base))
        if rc != 0:
            self.failed[src] = out
            return
        self.obj2src[obj] = src
        self._index(obj)

    def _index(self, obj, owner=None):
        rc, out = run(["readelf", "-sW", obj])
        secnames = {}
        rc, secs = run(["readelf", "-SW", obj])
        for m in re.finditer(r"^\s*\[\s*(\d+)\]\s+(\S+)", secs, re.M):
            secnames[int(m.group(1))] = m.group(2)
        defs = {}
        sec_syms = {}
        for l in out.splitlines():
            f = l.split()
            if len(f) >= 8 and f[0].endswith(":") and f[0][:-1].isdigit():
                typ, bind, ndx, nm = f[3], f[4], f[6], f[7]
                if ndx.isdigit() and typ in ("FUNC", "OBJECT"):
                    defs[nm] = (bind, int(ndx), typ)
                    sec_syms.setdefault(int(ndx), []).append(nm)
        refs = {}
        rc, rel = run(["readelf", "-rW", obj])
        cur = None
        for l in rel.splitlines():
            m = re.match(r"Relocation section '\.rela?(\S+)'", l)
            if m:
                cur = m.group(1)
                continue
            f = l.split()
            if cur and len(f) >= 5 and re.match(r"^[0-9a-f]{8,}$", f[0]):
                refs.setdefault(cur, set()).add(f[4])
        secid = {v: k for k, v in secnames.items()}
        loc = {}
        for nm, (bind, ndx, typ) in defs.items():
            rs = set()
            for r in refs.get(secnames.get(ndx, ""), ()):
                if r.startswith("."):
                    # section-relative reference: every symbol in that section
                    for s in sec_syms.get(secid.get(r, -1), ()):
                        rs.add(s)
                else:
                    rs.add(r)
            loc[nm] = (bind, typ, rs)
        self.nodes[obj] = loc
        if owner is None:
            for nm, (bind, typ, rs) in loc.items():
                if bind in ("GLOBAL", "WEAK"):
                    self.globals[nm] = obj
        return loc

    def undefined(self, obj):
        rc, out = run(["nm", "-u", obj])
        return [l.split()[-1] for l in out.splitlines() if l.strip()]

    def closure(self, roots, own, local_roots=()):
        """roots: symbol names wanted; own: names the harness defines itself"""
        seen, todo = set(), []
        missing = set()
        def want(obj, nm):
            if obj is not None and nm in self.nodes[obj]:
                loc = self.nodes[obj][nm]
                if loc[0] == "LOCAL":
                    k = (obj, nm)
                    if k not in seen:
                        seen.add(k); todo.append(k)
                    return
            if nm in own:
                return
            o = self.globals.get(nm)
            if o is None:
                missing.add(nm)
                return
            k = (o, nm)
            if k not in seen:
                seen.add(k); todo.append(k)
        for r in roots:
            want(None, r)
        while todo:
            o, nm = todo.pop()
            for r in self.nodes[o][nm][2]:
                want(o, r)
        return seen, missing

# functions without project body that the analysis may leave to CBMC's own models
OK_MISSING = set("""malloc calloc realloc free memcpy memmove memset memcmp strlen strcmp strncmp strcpy strncpy strcat strncat strchr strrchr
strcasecmp strncasecmp atoi atol strtol abs labs isalnum isalpha isdigit isspace isupper islower isxdigit isprint toupper tolower
abort exit _exit __assert_fail memchr strstr strtoull strtoul strtoll atoll strspn strcspn strpbrk strnlen strchrnul memrchr stpcpy __isoc23_strtoll strdup strndup __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc
sprintf snprintf vsprintf vsnprintf printf fprintf puts putchar fflush stderr stdout stdin fwrite fputs vprintf vfprintf perror
_GLOBAL_OFFSET_TABLE_ __stack_chk_fail environ optarg __isoc99_sscanf sscanf __isoc23_strtoull __isoc23_strtol __isoc23_strtoul rand srand random drand48
pthread_mutex_lock pthread_mutex_unlock""".split())

STUBBED_STATIC = ["set_last_error_message", "set_last_error_message_f", "unset_last_error_message", "get_last_error_message", "dump", "dump_multiple"]

class Harness:
    def __init__(self, q, work):
        self.q = q
        self.work = work
        os.makedirs(work, exist_ok=True)
        self.defs = list(q.get("defs", []))
        self.file = os.path.join(HARNESS, q["file"])
        self.models = [os.path.join(HARNESS, m) for m in q.get("models", [])]
        self.src = SRC
        if q.get("scale"):
            # the same sources with smaller constants, so that buffer limits
            # are within reach of the unwinding bounds
            self.src = os.path.join(work, "src")
            shutil.copytree(SRC, self.src, ignore=lambda d, fs: [f for f in fs if not (os.path.isdir(os.path.join(d, f)) or f.endswith((".c", ".h")))])
            for f, name, value in q["scale"]:
                f = os.path.join(self.src, f)
                t = open(f, newline="", errors="surrogateescape").read()
                open(f, "w", newline="", errors="surrogateescape").write(re.sub(r"(#define\s+%s\s+)[0-9]+" % name, r"\g<1>%s" % value, t))
        self.extra_src = [os.path.join(REPO, s) for s in q.get("repo_src", [])]

    def build_goto(self):
        g = self.graph = Graph(self.work, self.defs, self.extra_src, self.src)
        # native objects of the harness itself: tells what it defines and wants
        own, roots = {}, set()
        for f in [self.file] + self.models:
            o = os.path.join(self.work, "h_" + os.path.basename(f) + ".o")
            rc, out = run(["gcc", "-std=gnu11", "-O0", "-fno-builtin", "-ffunction-sections", "-fdata-sections", "-c", f, "-o", o, "-DVF_INDEX"] + cflags(self.defs, None, self.src))
            if rc != 0:
                raise BuildError("harness does not compile against the sources:\n" + out[:3000])
            rc, nm = run(["nm", o])
            for l in nm.splitlines():
                p = l.split()
                if p[-2] == "U":
                    roots.add(p[-1])
                elif p[-2] in "TDBRVWC":
                    own[p[-1]] = f
                elif p[-2] in "tdbr":
                    pass
        self.own = own
        seen, missing = g.closure([r for r in roots if r not in own], own)
        bad = [m for m in missing if m not in OK_MISSING and m not in self.q.get("allow_missing", []) and not m.startswith("vf_")]
        self.missing = sorted(missing)
        if bad:
            raise BuildError("unresolved functions: " + " ".join(sorted(bad)) + ("\n(sources that failed to compile: %s)" % " ".join(g.failed) if g.failed else ""))
        objs = sorted({o for o, _ in seen})
        self.used_src = [g.obj2src[o] for o in objs]
        self.functions = sorted({nm for o, nm in seen if g.nodes[o][nm][1] == "FUNC"})
        keep = set(self.functions)
        gbs = []
        lock = threading.Lock()
        def one(o):
            src = g.obj2src[o]
            gb = o[:-2] + ".gb"
            rc, out = run(["goto-cc", "-D__CPROVER__", "-std=gnu11", "-c", src, "-o", gb] + cflags(self.defs, src, self.src))
            if rc != 0:
                raise BuildError("goto-cc failed on %s:\n%s" % (src, out[-2000:]))
            # drop the functions outside the closure and the ones the harness replaces
            rm = [nm for nm, (b, t, _) in g.nodes[o].items() if t == "FUNC" and b != "LOCAL" and ((o, nm) not in seen)]
            rml = [nm for nm, (b, t, _) in g.nodes[o].items() if t == "FUNC" and b == "LOCAL" and ((o, nm) not in seen or nm in STUBBED_STATIC)]
            args = []
            for r in rm + rml:
                if r in STUBBED_STATIC and self.q.get("real_errors"):
                    continue
                args += ["--remove-function-body", r]
            if args:
                rc, out = run(["goto-instrument"] + args + [gb, gb])
                if rc != 0:
                    raise BuildError("goto-instrument failed on %s:\n%s" % (src, out[-2000:]))
            with lock:
                gbs.append(gb)
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, objs))
        self.gb = os.path.join(self.work, "h.gb")
        for rule in self.q.get("replace_calls", []):
            # inductive step: the calls a function of the project makes to
            # itself go to the contract the harness defines under another name
            old, new = rule.split(":")
            for o, nm in seen:
                if nm == old:
                    gb, src = o[:-2] + ".gb", g.obj2src[o]
                    tmp = o[:-2] + "_rc"
                    with open(tmp + ".c", "w") as f:
                        f.write('#include "viriatum_commons/stdafx.h"\n%s\n%s { }\n#include "%s"\n' % (self.q.get("replace_pre", ""), self.q["replace_proto"].replace("@", new), src))
                    keepers = [n for n in g.nodes[o] if g.nodes[o][n][1] == "FUNC" and (o, n) not in seen]
                    for c in (["goto-cc", "-D__CPROVER__", "-std=gnu11", "-c", tmp + ".c", "-o", tmp + ".gb"] + cflags(self.defs, src, self.src),
                              ["goto-instrument", "--replace-calls", rule, tmp + ".gb", tmp + "2.gb"],
                              ["goto-instrument"] + sum((["--remove-function-body", n] for n in [new] + keepers), []) + [tmp + "2.gb", gb]):
                        rc, out = run(c)
                        if rc != 0:
                            raise BuildError("replacing calls failed:\n" + out[-1500:])
        hs = []
        for f in [self.file] + self.models + [os.path.join(HARNESS, "vf_libc.c")]:
            gb = os.path.join(self.work, "h_" + os.path.basename(f) + ".gb")
            rc, out = run(["goto-cc", "-D__CPROVER__", "-std=gnu11", "-c", f, "-o", gb] + cflags(self.defs, None, self.src))
            if rc != 0:
                raise BuildError("goto-cc failed on %s:\n%s" % (f, out[-2000:]))
            rc, out = run(["goto-instrument"] + sum((["--remove-function-body", s] for s in ["set_last_error_message", "set_last_error_message_f", "unset_last_error_message"]), []) + [gb, gb])
            hs.append(gb)
        rc, out = run(["goto-cc", "-o", self.gb, "--function", "harness"] + hs + sorted(gbs))
        if rc != 0:
            raise BuildError("goto-cc link failed:\n" + out[-3000:])
        rc, out2 = run(["goto-instrument", "--drop-unused-functions", self.gb, self.gb], timeout=300)
        return out

    # native replay ------------------------------------------------------
    VARIANTS = {
        "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,signed-integer-overflow,vptr,function,null,pointer-overflow,float-cast-overflow", "-fno-sanitize-recover=all", "-fstrict-flex-arrays=3", "-ftrivial-auto-var-init=pattern"],
        "zero": ["-fsanitize=address", "-ftrivial-auto-var-init=zero"],
        "msan": ["-fsanitize=memory", "-fno-sanitize-recover=all"],
    }

    def build_native(self, variant):
        exe = os.path.join(self.work, "replay_" + variant)
        if os.path.exists(exe):
            return exe
        d = os.path.join(self.work, "n_" + variant)
        os.makedirs(d, exist_ok=True)
        fl = ["-std=gnu11", "-g", "-O0", "-fno-inline", "-fno-builtin", "-ffunction-sections", "-fno-omit-frame-pointer", "-DVF_REPLAY"] + self.VARIANTS[variant]
        objs = []
        srcs = self.used_src
        def one(src):
            o = os.path.join(d, re.sub(r"[^A-Za-z0-9]", "_", src) + ".o")
            rc, out = run(["clang"] + fl + ["-c", src, "-o", o] + cflags(self.defs, src, self.src))
            if rc != 0:
                raise BuildError("native build of %s failed:\n%s" % (src, out[-2000:]))
            if src.startswith(REPO) or src.startswith(self.src):
                w = []
                for nm in self.own:
                    w += ["--weaken-symbol=" + nm]
                run(["objcopy"] + w + [o])
            return o
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, srcs + [self.file] + self.models + [os.path.join(HARNESS, "vf_replay.c")]))
        rc, out = run(["clang"] + fl + objs + ["-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-lm", "-lpthread"])
        if rc != 0:
            raise BuildError("native link failed:\n" + out[-3000:])
        return exe
