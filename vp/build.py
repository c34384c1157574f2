"""Builds the executor (vexec) and the command line program from /repo's working tree, with ASan."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, "build"))
VEXEC = os.path.join(BUILD, "bin", "vexec")
CTOOL = os.path.join(BUILD, "bin", "ctool1cd")
# compile settings of /opt/vp/build.sh, plus AddressSanitizer
FLAGS = ("-Wno-error -w -include cstdint -DCATCH_CONFIG_NO_POSIX_SIGNALS -O1 -g1 "
         "-fsanitize=address -fno-omit-frame-pointer")


def _hashes():
    out = {}
    for root in (os.path.join(REPO, "src", "tool1cd"), os.path.join(REPO, "src", "ctool1cd"), os.path.join(HERE, "harness")):
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                try:
                    out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
                except OSError:
                    pass
    out["flags"] = FLAGS
    return out


def _cmake(mods):
    subprocess.run(["cmake", "-S", os.path.join(HERE, "harness"), "-B", BUILD, "-G", "Ninja",
                    "-DREPO=" + REPO, "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_CXX_FLAGS=" + FLAGS,
                    "-DVEXEC_MODULES=" + ";".join(mods), "-Wno-dev"],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", CC="gcc", CXX="g++")
    os.environ.update(env)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(BUILD, ".stamp")
        now = _hashes()
        if os.path.exists(stamp):
            old = json.load(open(stamp))
            t = os.path.getmtime(stamp)
            if old == now and os.path.exists(VEXEC) and os.path.exists(CTOOL):
                return
            stale = old.get("flags") != FLAGS
            for p, h in now.items():
                if p != "flags" and old.get(p) != h and os.path.getmtime(p) <= t:
                    stale = True   # changed content that a time-stamp build would not notice
            os.unlink(stamp)
        else:
            stale = any(x != ".lock" for x in os.listdir(BUILD))
        if stale:
            for x in os.listdir(BUILD):
                if x == ".lock":
                    continue
                p = os.path.join(BUILD, x)
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        mods = sorted(re.sub(r"^mod_|\.cpp$", "", os.path.basename(f)) for f in glob.glob(os.path.join(HERE, "harness", "mod_*.cpp")))
        for attempt in range(4):
            _cmake(mods)
            r = subprocess.run(["ninja", "-C", BUILD, "-k", "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
            failed = set(re.findall(r"FAILED: \S*mod_(\w+)\.cpp\.o", r.stdout))
            if not failed or attempt == 3:
                sys.stderr.write(r.stdout[-6000:])
                raise SystemExit("build of the code under test failed")
            sys.stderr.write("vexec modules that do not compile against this tree: %s\n%s\n" % (failed, r.stdout[-3000:]))
            mods = [m for m in mods if m not in failed]
        tmp = stamp + ".tmp"
        json.dump(now, open(tmp, "w"))
        time.sleep(0.02)
        os.rename(tmp, stamp)


if __name__ == "__main__":
    t = time.time()
    build()
    print("built in %.1f s" % (time.time() - t))
