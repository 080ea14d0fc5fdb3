#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree (content-hash cache in /verif/build)."""
import glob, hashlib, os, subprocess, sys, fcntl, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EIPSIM_REPO", "/repo")
BUILD = os.environ.get("EIPSIM_BUILD", os.path.join(VERIF, "build"))
INC = ["-I" + REPO + "/src", "-I" + REPO + "/src/vendor/ra/powerFlex525", "-I" + REPO + "/src/vendor/yaskawa/mp3300iec"]
FLAGS = ("-std=c++20 -O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined "
         "-D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR -U_FORTIFY_SOURCE -ftrivial-auto-var-init=pattern -UNDEBUG -w").split()
SYMS = ("socket close bind connect shutdown listen accept recv recvfrom recvmsg read send sendto sendmsg write writev select pselect "
        "poll ppoll setsockopt getsockopt fcntl fcntl64 ioctl getsockname getpeername clock_gettime gettimeofday time nanosleep "
        "clock_nanosleep usleep sleep _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv "
        "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE _ZNSt13random_device7_M_finiEv "
        "_ZNSt13random_device9_M_getvalEv getrandom rand").split()


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build():
    """Returns (path of the simulator, log) or (None, log)."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    hdrs = sorted(glob.glob(REPO + "/src/**/*.h", recursive=True) + glob.glob(REPO + "/src/**/*.hpp", recursive=True))
    mine = sorted(glob.glob(VERIF + "/sim/*.cpp"))
    mhdrs = sorted(glob.glob(VERIF + "/sim/*.h"))
    read = lambda f: open(f, "rb").read()
    snapshot = lambda: hashlib.sha256(b"\0".join(read(f) for f in srcs + hdrs + mine + mhdrs)).digest()
    before = snapshot()
    hh = hashlib.sha256()
    for f in hdrs:
        hh.update(f[len(REPO):].encode() + b"\0" + read(f) + b"\0")
    hh.update(" ".join(FLAGS + INC + SYMS).encode())
    mh = hh.copy()
    for f in mhdrs:
        mh.update(os.path.basename(f).encode() + b"\0" + read(f) + b"\0")
    jobs, objs = [], []
    for f in srcs + mine:
        d = (hh if f in srcs else mh).copy()
        d.update(f.encode() + b"\0" + read(f))
        o = os.path.join(BUILD, "o-" + d.hexdigest()[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((f, o))
    key = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "eipsim-" + key)
    if os.path.exists(exe):
        os.utime(exe)
        for o in objs:
            if os.path.exists(o):
                os.utime(o)
        return exe, "cached"

    def comp(j):
        f, o = j
        rc, out = sh(["g++"] + FLAGS + INC + ["-c", f, "-o", o + ".tmp%d" % os.getpid()])
        if rc == 0:
            os.replace(o + ".tmp%d" % os.getpid(), o)
        return rc, f, out
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for rc, f, out in ex.map(comp, jobs):
            if rc:
                return None, "compiling %s failed:\n%s" % (f, out)
    if jobs and snapshot() != before:      # edited while it was compiled
        for f, o in jobs:
            os.unlink(o)
        lock.close()
        return build()
    rc, out = sh(["g++", "-fsanitize=address,undefined", "-g", "-o", exe + ".tmp"] + objs + ["-Wl,--wrap=" + s for s in SYMS])
    if rc:
        return None, "link failed:\n" + out
    os.replace(exe + ".tmp", exe)
    # keep the cache small
    old = sorted(glob.glob(BUILD + "/eipsim-*"), key=os.path.getmtime)[:-6]
    for f in old:
        os.unlink(f)
    oo = sorted(glob.glob(BUILD + "/o-*.o"), key=os.path.getmtime)[:-600]
    for f in oo:
        if f not in objs:
            os.unlink(f)
    return exe, "built"


if __name__ == "__main__":
    exe, log = build()
    print(exe or log)
    sys.exit(0 if exe else 2)
