#!/usr/bin/env python3
"""Builds the simulator around the current sources of /repo.

build(variant) -> path of the executable. variant: "plain" or "asan".
Simulator objects are cached by content, the code under test likewise; nothing
outside /verif/build is written."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NB_REPO", "/repo")
BUILD = os.environ.get("NB_BUILD", os.path.join(VERIF, "build"))
SIM = os.path.join(VERIF, "sim")

PURE = set("""memcpy memmove memset memcmp memchr memrchr mempcpy memmem strlen strnlen strcmp strncmp strcasecmp
strncasecmp strchr strrchr strchrnul strstr strcpy strncpy strcat strncat strspn strcspn strpbrk strtok strtok_r strsep
stpcpy stpncpy strerror strerror_r strcoll strtod strtof strtold
atoi atol atoll atof abs labs llabs
__isoc99_sscanf __isoc23_sscanf sscanf snprintf
sprintf vsnprintf vsprintf qsort bsearch __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc isalpha isdigit isalnum isspace
isxdigit isprint ispunct isupper islower iscntrl isgraph isblank tolower toupper fnmatch basename dirname __xpg_basename
setjmp _setjmp __sigsetjmp longjmp siglongjmp gmtime gmtime_r localtime localtime_r mktime strftime difftime
index rindex memccpy strsignal qsort_r rawmemchr strpbrk swab nan lround llround
__isoc23_vsscanf vsscanf
bcmp bzero ffs ldiv div lldiv explicit_bzero strverscmp nanf floor ceil round pow log log2 fmod
blake2b_init blake2b_update blake2b_init_key blake2b_init_param siphash
_GLOBAL_OFFSET_TABLE_ __tls_get_addr environ""".split())

WARN = ["-w"]
COMMON = ["-g", "-fno-stack-protector", "-U_FORTIFY_SOURCE"]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
    return h.hexdigest()[:20]

def parallel(jobs):
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for f in [ex.submit(run, j) for j in jobs]: f.result()

def flags(variant):
    if variant == "asan":
        return ["-O1", "-fsanitize=address", "-fsanitize-recover=address", "-fno-omit-frame-pointer"]
    return ["-O1"]

def sim_objects(variant, out):
    hdr = glob.glob(SIM + "/*.h")
    objs, jobs = [], []
    for c in sorted(glob.glob(SIM + "/*.cpp")):
        fl = flags(variant)
        key = digest([c] + hdr, variant + " ".join(fl))
        o = os.path.join(out, os.path.basename(c)[:-4] + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            for old in glob.glob(os.path.join(out, os.path.basename(c)[:-4] + ".*.o")): os.unlink(old)
            jobs.append(["g++", "-std=c++20", *fl, *COMMON, *WARN, "-c", c, "-o", o])
    parallel(jobs)
    return objs

def nb_sources():
    src = sorted(glob.glob(REPO + "/src/*.c"))
    third = sorted(glob.glob(REPO + "/third-party/CRegion/*.c"))
    return src, [t for t in third if not os.path.basename(t).startswith("test")]

def build(variant="plain"):
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    sim = sim_objects(variant, out)
    src, creg = nb_sources()
    hash_src = [f for f in glob.glob(REPO + "/third-party/BLAKE2/*.c") + glob.glob(REPO + "/third-party/SipHash/*.c")
                if os.path.basename(f) in ("blake2b.c", "blake2b-ref.c", "siphash.c")]
    deps = glob.glob(REPO + "/src/*") + glob.glob(REPO + "/third-party/**/*.[ch]", recursive=True)
    key = digest([d for d in deps if os.path.isfile(d)], variant + "".join(sim) + open(__file__).read())
    exe = os.path.join(out, "nbsim." + key)
    if os.path.exists(exe): return exe
    work = os.path.join(out, "nb")
    os.makedirs(work, exist_ok=True)
    for f in glob.glob(work + "/*"): os.unlink(f)
    for f in glob.glob(os.path.join(out, "nbsim.*")): os.unlink(f)
    cfl = ["-std=c99", "-D_XOPEN_SOURCE=600", "-D_FILE_OFFSET_BITS=64", "-DSIPHASH_USE_ONLY_STATIC", "-fno-pic", "-fno-pie", "-fno-common",
           "-I" + REPO + "/third-party", "-I" + REPO + "/src", *flags(variant), *COMMON, *WARN]
    if variant == "asan": cfl += ["-DCREGION_ALWAYS_FRESH_MALLOC"]
    jobs, objs, hobjs = [], [], []
    for i, c in enumerate(src + creg + hash_src):
        o = os.path.join(work, "%02d_%s.o" % (i, os.path.basename(c)[:-2]))
        (hobjs if c in hash_src else objs).append(o)
        jobs.append(["gcc", *(cfl if c not in hash_src else [x for x in cfl if "sanitize" not in x]), "-c", c, "-o", o])
    parallel(jobs)
    lds = os.path.join(work, "merge.ld")
    with open(lds, "w") as f:
        f.write("SECTIONS { nbdata : { *(.data .data.* .bss .bss.* COMMON) } }\n")
    raw = os.path.join(work, "raw.o")
    run(["ld", "-r", "-T", lds, "-o", raw, *objs])
    # every external symbol goes to the simulator, to an allow-listed pure function, or to a trap
    und = [l.split()[-1] for l in run(["nm", "-u", raw]).splitlines()]
    sim_syms = set()
    for l in run(["nm", "--defined-only", *sim]).splitlines():
        p = l.split()
        if len(p) == 3 and p[2].startswith("sim_"): sim_syms.add(p[2][4:])
    hash_syms = set()
    for l in run(["nm", "--defined-only", "-g", *hobjs]).splitlines():
        p = l.split()
        if len(p) == 3: hash_syms.add(p[2])
    redef, traps = [("main", "nb_main")], []
    for u in und:
        cand = [u]
        if u.endswith("64"): cand.append(u[:-2])
        for pre in ("__isoc99_", "__isoc23_"):
            if u.startswith(pre): cand.append(u[len(pre):])
        hit = next((c for c in cand if c in sim_syms), None)
        if hit: redef.append((u, "sim_" + hit))
        elif u in PURE or u in hash_syms or u.startswith(("__asan_", "__sanitizer_", "__ubsan_", "__start_", "__stop_")): pass
        else:
            traps.append(u); redef.append((u, "simtrap_" + u))
    with open(os.path.join(work, "redef"), "w") as f:
        for a, b in redef: f.write("%s %s\n" % (a, b))
    final = os.path.join(work, "nb.o")
    run(["objcopy", "--redefine-syms=" + os.path.join(work, "redef"), raw, final])
    tc = os.path.join(work, "traps.cpp")
    with open(tc, "w") as f:
        f.write('[[noreturn]] void unsupported(const char *);\nextern "C" {\n')
        for t in traps: f.write('void simtrap_%s() { unsupported("%s"); }\n' % (t, t))
        f.write("}\n")
    to = os.path.join(work, "traps.o")
    run(["g++", *flags(variant), "-c", tc, "-o", to])
    tmp = exe + ".tmp"
    run(["g++", "-no-pie", *flags(variant), "-g", *sim, final, to, *hobjs, "-o", tmp])
    os.rename(tmp, exe)
    if traps: print("note: unsupported externals (fatal only if called): " + " ".join(traps), file=sys.stderr)
    return exe

if __name__ == "__main__":
    for v in (sys.argv[1:] or ["plain", "asan"]): print(build(v))
