"""Build the driver from /repo's current working tree (out of tree, content-hashed)."""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

WRAPS = """open open64 openat creat close read pread pread64 write pwrite pwrite64 writev pwritev
pwritev64 rename renameat unlink unlinkat mkdir rmdir ftruncate ftruncate64 truncate fsync
fdatasync sync_file_range fallocate posix_fallocate link readdir readdir64 opendir clock_gettime
gettimeofday time""".split()
THREAD_WRAPS = """pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait
pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_rwlock_rdlock
pthread_rwlock_wrlock pthread_rwlock_unlock pthread_create pthread_join pthread_spin_lock
pthread_spin_unlock pthread_spin_trylock usleep sched_yield""".split()

VARIANTS = {
    # name: (compiler flags, link flags)
    "plain": (["-O1", "-g"], []),
    "asan": (["-O1", "-g", "-fsanitize=address,bounds", "-fno-sanitize-recover=all",
              "-fno-omit-frame-pointer"],
             ["-fsanitize=address,bounds"]),
    "tsan": (["-O1", "-g", "-fsanitize=thread"], ["-fsanitize=thread"]),
}


def _sources():
    cml = open(os.path.join(REPO, "build", "CMakeLists.txt")).read()
    srcs = []
    for m in re.finditer(r"\$\{MONOTONE_ROOT\}/([\w/.\-]+\.c)\b", cml):
        p = os.path.join(REPO, "monotone", m.group(1))
        if p not in srcs and os.path.exists(p):
            srcs.append(p)
    incs = []
    for m in re.finditer(r'include_directories\("\$\{MONOTONE_ROOT\}/([\w/.\-]+)"\)', cml):
        incs.append(os.path.join(REPO, "monotone", m.group(1)))
    return srcs, incs


def _hash(variant):
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(REPO, "monotone", "**", "*.[ch]"), recursive=True))
    files += sorted(glob.glob(os.path.join(HARNESS, "*")))
    files += [os.path.join(REPO, "build", "CMakeLists.txt"), os.path.abspath(__file__)]
    for f in files:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
    h.update(variant.encode())
    return h.hexdigest()[:16]


def build(variant="plain"):
    """Return the path of the driver binary of this variant; builds it if needed."""
    cflags, lflags = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tag = _hash(variant)
        out = os.path.join(BUILD, "%s-%s" % (variant, tag))
        exe = os.path.join(out, "driver")
        if os.path.exists(exe):
            return exe
        # keep at most a few old builds of the variant
        old = sorted(glob.glob(os.path.join(BUILD, variant + "-*")), key=os.path.getmtime)
        for d in old[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        try:
            srcs, incs = _sources()
            inc = ["-I" + i for i in incs]
            jobs = []
            for s in srcs:
                o = os.path.join(tmp, re.sub(r"[^\w]", "_", os.path.relpath(s, REPO)) + ".o")
                jobs.append((["gcc", "-std=gnu17", "-w", "-fPIC", "-pthread"] + cflags + inc + ["-c", s, "-o", o], o))
            for s in sorted(glob.glob(os.path.join(HARNESS, "*.cc"))):
                o = os.path.join(tmp, os.path.basename(s) + ".o")
                jobs.append((["g++", "-std=c++17", "-Wall", "-Wno-unused-result", "-pthread"] + cflags +
                             ["-I" + os.path.join(REPO, "monotone/main/api"), "-c", s, "-o", o], o))

            def run(j):
                r = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                return r.returncode, " ".join(j[0]) + "\n" + r.stdout

            with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                for rc, msg in ex.map(run, jobs):
                    if rc:
                        raise SystemExit("build failed:\n" + msg)
            wraps = ["-Wl,--wrap=" + w for w in WRAPS + THREAD_WRAPS]
            cmd = ["g++", "-pthread"] + lflags + [o for _, o in jobs] + wraps + \
                  ["-o", os.path.join(tmp, "driver"), "-lcurl", "-lssl", "-lcrypto", "-lzstd", "-llz4", "-lm", "-ldl"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise SystemExit("link failed:\n" + r.stdout)
            for _, o in jobs:
                os.unlink(o)
            if os.path.exists(out):
                shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
