"""Shared parts of the check driver: environment, scratch space, evidence."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HSV_REPO", "/repo")  # only overridden by hand, to try a scratch copy
EVID = os.environ.get("HSV_EVIDENCE", os.path.join(VERIF, "evidence"))
RAPID = ("pgregory.net/rapid v1.3.0 h1:vBvO0VSqti75J1jjYqpgPNBLKMd1+gxa9fYo7vk/Exc=\n"
         "pgregory.net/rapid v1.3.0/go.mod h1:dPlE4OBBxgXPqkP79flB6sJL1dx5azpI7HQ9MY9Z7uk=\n")


class HarnessError(Exception):
    """The check could not do its work: no verdict."""


def go_env():
    """The environment in which this repository builds (/opt/vp/env.sh)."""
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("GO") or k.startswith("HS_"):
            del env[k]
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], env=env, stdout=subprocess.PIPE, check=True).stdout
        env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    except (OSError, subprocess.CalledProcessError):
        root = "/opt/veriftools/go1.27.3"
        env.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", CGO_ENABLED="1",
                   GOROOT=root, GOPATH="/root/go", GOCACHE="/root/.cache/go-build",
                   PATH=root + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                   GIT_CONFIG_COUNT="1", GIT_CONFIG_KEY_0="safe.directory", GIT_CONFIG_VALUE_0="*")
    env.pop("BASH_FUNC_clean_generated%%", None)
    for k in ("VERIF_SEED", "VERIF_TIER"):
        env.pop(k, None)
    return env


class Scratch:
    """A private directory outside /repo and /verif, removed at the end."""

    def __init__(self, mem=False):
        base = None
        if mem and os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK):
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize > 2 << 30:
                base = "/dev/shm"
        self.dir = tempfile.mkdtemp(prefix="hsverif-", dir=base)

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        subprocess.run(["chmod", "-R", "u+rwX", self.dir], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.dir, ignore_errors=True)


def go_mod_text(module, extra=""):
    """A go.mod using /repo's module with exactly the versions /repo requires."""
    src = open(os.path.join(REPO, "go.mod")).read()
    mod = re.search(r"^module\s+(\S+)", src, re.M).group(1)
    req = re.findall(r"^\s*(?:require\s+)?([\w./~-]+)\s+(v\S+)", src, re.M)
    out = ["module " + module, "", "go 1.26", "", "require ("]
    out.append("\t%s v0.0.0" % mod)
    for p, v in req:
        out.append("\t%s %s" % (p, v))
    out += [extra] if extra else []
    out += [")", "", "replace %s => %s" % (mod, REPO), ""]
    for m in re.findall(r"^replace\s+.*$", src, re.M):
        out.append(m)
    return "\n".join(out) + "\n"


def seed_from_env(arg=None):
    s = arg if arg is not None else os.environ.get("VERIF_SEED", "1")
    try:
        n = int(s)
    except ValueError:
        n = int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)
    n &= (1 << 62) - 1
    return n if n else 0x5EED


def write_evidence(pid, tier, seed, level, coverage, violations, wall, assumptions=None):
    os.makedirs(EVID, exist_ok=True)
    d = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
         "violations": violations, "wall_s": round(wall, 3)}
    if assumptions:
        d["assumptions"] = assumptions
    p = os.path.join(EVID, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(p + ".tmp", p)


def save_replay(pid, failure):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    data = json.dumps(failure, indent=1, sort_keys=True)
    p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(data.encode()).hexdigest()[:12]))
    with open(p, "w") as f:
        f.write(data + "\n")
    return p


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def known_findings(pid):
    """Lines 'property=<id> case=<key> <what fails>' of KNOWN_FINDINGS."""
    out = {}
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def now():
    return time.monotonic()
