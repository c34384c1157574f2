"""Client of the executor process, and runner of the command line program."""
import os, resource, select, shutil, signal, struct, subprocess, tempfile, time
from . import build as _b


class Violation(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Crash(Violation):
    """the code under test crashed or hung"""


class Unsupported(Exception):
    """The current tree does not offer a command (its module did not compile)."""


ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1000000000:malloc_fill_byte=190:"
        "allocator_may_return_null=0:max_allocation_size_mb=1500:handle_abort=1:detect_stack_use_after_return=0:"
        "hard_rss_limit_mb=3500:quarantine_size_mb=16:symbolize=1:print_legend=0:print_full_thread_history=0")
HANG = 30.0


def base_env(tmp):
    return {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "TZ": "UTC", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
            "TMPDIR": tmp, "TEMP": tmp, "TMP": tmp, "HOME": tmp, "ASAN_OPTIONS": ASAN,
            "ASAN_SYMBOLIZER_PATH": shutil.which("llvm-symbolizer") or ""}


_user = None


def run_user(scratch):
    """kwargs dropping privileges: the code under test runs as an unprivileged user where that works."""
    global _user
    if _user is None:
        _user = {}
        if os.geteuid() == 0:
            kw = dict(user=65534, group=65534, extra_groups=[])
            p = os.path.join(scratch, "probe")
            try:
                r = subprocess.run([_b.CTOOL, "-h"], cwd=scratch, env=base_env(scratch), stdin=subprocess.DEVNULL,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, **kw)
                q = subprocess.run(["/bin/sh", "-c", "echo x > %s" % p], cwd=scratch, env=base_env(scratch), timeout=60, **kw)
                if q.returncode == 0 and os.path.exists(p) and r.returncode in (0, 1):
                    os.unlink(p)
                    _user = kw
            except Exception:
                _user = {}
    return _user


def asan_summary(text):
    out = []
    for line in text.splitlines():
        if "ERROR: AddressSanitizer" in line or line.startswith("SUMMARY:") or "terminate called" in line or "what():" in line:
            out.append(line.strip()[:300])
        elif line.lstrip().startswith("#") and (" in " in line) and len(out) < 10 and "/src/" in line:
            out.append(line.strip()[:200])
    return " | ".join(out[:8])


class Exec:
    def __init__(self, scratch):
        self.scratch = scratch
        self.p = None
        self.errf = None
        self.calls = 0

    def start(self):
        self.tmp = os.path.join(self.scratch, "tmp")
        os.makedirs(self.tmp, exist_ok=True)
        os.chmod(self.tmp, 0o777)
        self.errpath = os.path.join(self.scratch, "stderr.txt")
        self.errf = open(self.errpath, "wb")
        self.p = subprocess.Popen([_b.VEXEC], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, bufsize=0,
                                  cwd=self.scratch, env=base_env(self.tmp), **run_user(self.scratch))

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.kill()
            except Exception:
                pass
            self.p.wait()
            try:
                self.p.stdout.close()
            except Exception:
                pass
            self.errf.close()
            self.p = None

    def _read(self, n, deadline):
        buf = bytearray()
        fd = self.p.stdout.fileno()
        while len(buf) < n:
            left = deadline - time.monotonic()
            if left <= 0:
                raise TimeoutError
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                raise TimeoutError
            b = os.read(fd, min(1 << 20, n - len(buf)))
            if not b:
                raise EOFError
            buf += b
        return bytes(buf)

    def raw(self, *args, timeout=HANG):
        """returns list of byte strings: status, values..., messages"""
        if self.p is None:
            self.start()
        self.calls += 1
        a = [x if isinstance(x, bytes) else str(x).encode("utf-8") for x in args]
        out = [struct.pack("<I", len(a))]
        for x in a:
            out.append(struct.pack("<I", len(x)))
            out.append(x)
        data = b"".join(out)
        deadline = time.monotonic() + timeout
        try:
            mv = memoryview(data)
            while mv:
                k = os.write(self.p.stdin.fileno(), mv[:1 << 16])
                mv = mv[k:]
            n = struct.unpack("<I", self._read(4, deadline))[0]
            res = []
            for _ in range(n):
                l = struct.unpack("<I", self._read(4, deadline))[0]
                res.append(self._read(l, deadline) if l else b"")
        except TimeoutError:
            self.stop()
            raise Crash("operation %s did not finish within %.0f s (hang)" % (a[0].decode(), timeout))
        except (EOFError, BrokenPipeError):
            rc = self.p.wait()
            self.stop()
            txt = open(self.errpath, "rb").read().decode("utf-8", "replace")
            raise Crash("operation %s crashed the process (status %s): %s" % (a[0].decode(), rc, asan_summary(txt) or txt[-400:]))
        if res[0] == b"nocmd":
            raise Unsupported(a[0].decode())
        self.msgs = [m.decode("utf-8", "replace") for m in res[-1].split(b"\0") if m]
        return res

    def call(self, *args, timeout=HANG):
        """values of a command expected to succeed"""
        r = self.raw(*args, timeout=timeout)
        if r[0] != b"ok":
            raise Violation("operation %s raised %s: %s" % (args[0], r[1].decode(), r[2].decode("utf-8", "replace")[:500]))
        return r[1:-1]

    def attempt(self, *args, timeout=HANG):
        """('ok', values) or ('exc', type, text)"""
        r = self.raw(*args, timeout=timeout)
        if r[0] == b"ok":
            return ("ok", r[1:-1])
        return ("exc", r[1].decode(), r[2].decode("utf-8", "replace"))


class Ctx:
    """What a case runs with: an executor and an empty scratch directory."""

    def __init__(self):
        os.umask(0)
        self.root = tempfile.mkdtemp(prefix="vp-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (4 << 30) else None)
        os.chmod(self.root, 0o777)
        self.ex = Exec(self.root)
        self.dir = os.path.join(self.root, "case")

    def fresh(self):
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.chmod(self.dir, 0o777)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def read(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def ctool(self, *args, timeout=HANG, cwd=None, limit=None):
        """runs ctool1cd; returns (exit status, output); limit = the size at which files stop growing, as on a full disk"""
        def full():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        tmp = os.path.join(self.root, "ctmp")
        os.makedirs(tmp, exist_ok=True)
        os.chmod(tmp, 0o777)
        try:
            r = subprocess.run([_b.CTOOL] + [a for a in args], cwd=cwd or self.dir, env=base_env(tmp), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               preexec_fn=full if limit is not None else None, **run_user(self.root))
        except subprocess.TimeoutExpired:
            raise Crash("ctool1cd %s did not finish within %.0f s" % (" ".join(map(str, args)), timeout))
        err = self.err = r.stderr.decode("utf-8", "replace")
        if r.returncode < 0 or "AddressSanitizer" in err:
            raise Crash("ctool1cd crashed (status %d): %s" % (r.returncode, asan_summary(err) or err[-300:]))
        return r.returncode, r.stdout.decode("utf-8", "replace")

    def close(self):
        self.ex.stop()
        shutil.rmtree(self.root, ignore_errors=True)
