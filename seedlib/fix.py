"""Scratch cluster and repository for demonstrations. Everything lives in a directory made by the demo."""
import hashlib
import os
import shutil
import struct
import subprocess
import sys
import tempfile

BIN = os.path.join(os.getcwd(), "_build/src/pgbackrest")


def crc32c(data):
    crc = 0xffffffff
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ (0x82f63b78 if crc & 1 else 0)
    return crc ^ 0xffffffff


def control(sysid=6569239123849665679, ctl=1300, cat=202007201, segsize=16 * 1024 * 1024, tl=1, cksum=0):
    b = bytearray(8192)
    struct.pack_into("<QII", b, 0, sysid, ctl, cat)
    struct.pack_into("<Q", b, 32, 0x1000028)
    struct.pack_into("<I", b, 48, tl)
    struct.pack_into("<I", b, 216, 8192)
    struct.pack_into("<I", b, 228, segsize)
    struct.pack_into("<I", b, 252, cksum)
    struct.pack_into("<I", b, 288, crc32c(bytes(b[:288])))
    return bytes(b)


def wal(sysid=6569239123849665679, magic=0xd106, segsize=16 * 1024 * 1024, fill=b"\1"):
    b = bytearray(fill * segsize)
    b[:40] = bytes(40)
    struct.pack_into("<HH", b, 0, magic, 2)
    struct.pack_into("<QI", b, 24, sysid, segsize)
    return bytes(b)


class Env:
    def __init__(self, repos=1, extra="", stanza="db"):
        self.d = tempfile.mkdtemp(prefix="demo-")
        os.chmod(self.d, 0o755)
        self.stanza = stanza
        self.pg = self.d + "/pg"
        self.repo = self.d + "/repo"
        self.conf = self.d + "/pgbackrest.conf"
        for x in ("log", "lock", "spool", "tmp"):
            os.makedirs(self.d + "/" + x)
        r = "".join("repo%d-path=%s\n" % (i + 1, self.repo + (str(i + 1) if i else "")) for i in range(repos))
        with open(self.conf, "w") as f:
            f.write("[global]\n%slog-path=%s/log\nlock-path=%s/lock\nspool-path=%s/spool\nlog-level-console=warn\nlog-level-file=off\nlog-level-stderr=off\nallow-root=y\n%s\n[%s]\npg1-path=%s\n" % (
                r, self.d, self.d, self.d, extra, stanza, self.pg))

    def cluster(self, files=None, **kw):
        for x in ("", "base", "base/1", "global", "pg_wal", "pg_tblspc", "pg_xact"):
            os.makedirs(os.path.join(self.pg, x), exist_ok=True, mode=0o700)
        os.chmod(self.pg, 0o700)
        self.put("PG_VERSION", b"13\n")
        self.put("global/pg_control", control(**kw))
        self.put("base/1/1", b"\0" * 8192)
        self.put("base/1/2", b"x" * 5000)
        self.put("postgresql.conf", b"# conf\n")
        for k, v in (files or {}).items():
            self.put(k, v)

    def put(self, name, data, base=None):
        p = os.path.join(base or self.pg, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        os.chmod(p, 0o600)
        return p

    def cmd(self, *args, env=None, cwd=None, input=None, timeout=120):
        a = [BIN, "--config=" + self.conf, "--config-include-path=" + self.d + "/tmp", "--stanza=" + self.stanza] + list(args)
        e = dict(os.environ)
        e.update(env or {})
        return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd or self.d, input=input, timeout=timeout)

    def ok(self, *args, **kw):
        r = self.cmd(*args, **kw)
        if r.returncode != 0:
            sys.stderr.write("unexpected failure of %s\n%s\n" % (args, r.stdout.decode(errors="replace")))
            raise Broken()
        return r.stdout.decode(errors="replace")

    def preload(self, src, name="p"):
        so = self.d + "/%s.so" % name
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, src, "-ldl"], check=True)
        return so

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


class Broken(Exception):
    """The setup did not work: the demonstration says nothing."""


def main(fn):
    """fn() returns None when the behaviour is right, or a message. Exit 0 / 1."""
    try:
        m = fn()
    except Broken:
        sys.exit(3)
    if m:
        print("FAIL: " + m)
        sys.exit(1)
    print("ok")
    sys.exit(0)
