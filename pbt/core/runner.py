"""Runs the hush binary (black box) in a scratch directory."""
import errno
import os
import resource
import shutil
import signal
import subprocess
import tempfile
import time


class Infra(Exception):
    """The machinery could not do its work (never a verdict)."""


class Outcome:
    """What one run of hush did."""
    __slots__ = ("rc", "out", "err", "hang")

    def __init__(self, rc, out, err, hang=False):
        self.rc, self.out, self.err, self.hang = rc, out, err, hang

    def brief(self):
        return {
            "rc": self.rc,
            "hang": self.hang,
            "stdout": self.out[-1500:].decode("utf-8", "backslashreplace"),
            "stderr": self.err[-1500:].decode("utf-8", "backslashreplace"),
        }

    @property
    def crashed(self):
        """Died otherwise than through one of the documented exits."""
        return self.rc is None or self.rc < 0 or self.rc in (101, 134)


def limit_self():
    """Limits for this (worker) process and, by inheritance, everything it starts."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    os.umask(0o022)


class Runner:
    TIMEOUT = 15.0

    def __init__(self, hush, helper_dir, scratch):
        self.hush = hush
        self.helper_dir = helper_dir
        self.scratch = scratch
        self.n = 0
        self.home = os.path.join(scratch, "home")
        os.makedirs(self.home, exist_ok=True)
        self.runs = 0
        self.timeout = self.TIMEOUT

    # -- directories ---------------------------------------------------------------------
    def fresh(self):
        """A fresh directory inside the scratch directory."""
        self.n += 1
        d = os.path.join(self.scratch, "d%d" % self.n)
        os.mkdir(d)
        return d

    def drop(self, d):
        assert d.startswith(self.scratch + os.sep)
        for root, dirs, _ in os.walk(d):
            for x in dirs:
                p = os.path.join(root, x)
                if not os.path.islink(p):
                    try:
                        os.chmod(p, 0o700)
                    except OSError:
                        pass
        shutil.rmtree(d, ignore_errors=True)

    def env(self, extra=None):
        e = {
            "PATH": self.helper_dir,
            "HOME": self.home,
            "LC_ALL": "C.UTF-8",
            "RUST_BACKTRACE": "0",
        }
        if extra:
            for k, v in extra.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        return e

    # -- running -------------------------------------------------------------------------
    def exec(self, args, cwd, stdin=b"", env=None, timeout=None, preexec=None):
        """Run `hush args...`. stdin: bytes, or None for /dev/null."""
        self.runs += 1
        timeout = timeout or self.timeout
        for attempt in range(20):
            try:
                p = subprocess.Popen(
                    [self.hush] + list(args), cwd=cwd, env=self.env(env),
                    stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                    stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                    start_new_session=True, preexec_fn=preexec,
                )
                break
            except OSError as e:
                if e.errno in (errno.EAGAIN, errno.ENOMEM, errno.EMFILE) and attempt < 19:
                    time.sleep(0.2)
                    continue
                raise Infra("cannot start hush: %s" % e)
        try:
            out, err = p.communicate(stdin if stdin is not None else None, timeout=timeout)
            return Outcome(p.returncode, out, err)
        except subprocess.TimeoutExpired:
            self._killpg(p)
            try:
                out, err = p.communicate(timeout=5)
            except subprocess.TimeoutExpired:
                out, err = b"", b""
            return Outcome(None, out, err, hang=True)
        finally:
            self._killpg(p)

    @staticmethod
    def _killpg(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def script(self, text, args=(), stdin=b"", env=None, files=None, cwd=None, name="t.hsh",
               flags=(), timeout=None, keep=False, preexec=None):
        """Write a script in a fresh directory, run it there, and remove the directory."""
        if isinstance(text, str):
            text = text.encode("utf-8", "surrogateescape")
        d = cwd or self.fresh()
        try:
            with open(os.path.join(d, name), "wb") as f:
                f.write(text)
            for k, v in (files or {}).items():
                p = os.path.join(d, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(v)
            return self.exec(list(flags) + [name] + list(args), d, stdin, env, timeout, preexec)
        finally:
            if cwd is None and not keep:
                self.drop(d)
