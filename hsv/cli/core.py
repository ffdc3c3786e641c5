"""Shared parts of the command-line harness: running the real `hotswap build`
on generated modules inside a private scratch directory, and comparing trees."""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import stat
import subprocess

from .. import common

FUNCS = ["Export", "Import", "InvokeFunc", "OnFree", "OnInit", "OnLoad", "Reloadable"]

SIMPLE = {
    "OnLoad": "func OnLoad(data interface{}) error { return nil }",
    "OnInit": "func OnInit(v interface{}) error { return nil }",
    "OnFree": "func OnFree() {}",
    "Export": "func Export() interface{} { return nil }",
    "Import": "func Import() interface{} { return nil }",
    "InvokeFunc": "func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return nil, nil }",
    "Reloadable": "func Reloadable() bool { return true }",
}


class Violation(Exception):
    """The property is broken; the message says how."""


class NoVerdict(Exception):
    """The harness could not do its work."""


class Result:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    def text(self):
        t = ("exit status %s%s\n" % (self.rc, " (timed out)" if self.timed_out else "")) + self.out + self.err
        return t if len(t) < 3000 else t[:1500] + "\n...\n" + t[-1500:]


def gosrc_funcs(skip=()):
    return "\n".join(SIMPLE[f] for f in FUNCS if f not in skip) + "\n"


def snapshot(root):
    """path -> (kind, mode, digest) of everything below root but git's own data."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != ".git"]
        for n in dirs + files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", 0, os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir", stat.S_IMODE(st.st_mode), "")
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", stat.S_IMODE(st.st_mode), hashlib.sha1(f.read()).hexdigest())
    return out


def tree_diff(a, b):
    """Human-readable differences, and the set of differing paths."""
    lines = []
    paths = []
    for p in sorted(set(a) | set(b)):
        if p not in b:
            lines.append("removed: " + p)
        elif p not in a:
            lines.append("created: " + p)
        elif a[p] != b[p]:
            lines.append("changed: %s %s -> %s" % (p, a[p], b[p]))
        else:
            continue
        paths.append(p)
    return lines, paths


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def build_cli(tmp, env):
    out = os.path.join(tmp, "hotswap")
    p = common.run(["go", "build", "-trimpath", "-o", out, "./cli/hotswap"], cwd=common.REPO, env=env)
    if p.returncode != 0 or not os.path.exists(out):
        raise common.HarnessError("cannot build cli/hotswap:\n" + p.stdout.decode(errors="replace")[-4000:])
    return out


def module_path():
    return re.search(r"^module\s+(\S+)", open(os.path.join(common.REPO, "go.mod")).read(), re.M).group(1)


class Ctx:
    """One worker's private world: a git repository in which every case gets its own directory."""

    def __init__(self, base, cli, shared):
        self.base = base
        self.cli = cli
        self.shared = shared  # directory with what the parent process built (host program)
        self.env = common.go_env()
        self.env["GOFLAGS"] = ""
        self.env["GOTMPDIR"] = os.path.join(base, "gotmp")
        self.env["TMPDIR"] = os.path.join(base, "gotmp")
        self.env["LC_ALL"] = "C"
        os.makedirs(self.env["GOTMPDIR"])
        self.hotswap = module_path()
        self.n = 0
        self.root = os.path.join(base, "w")
        os.makedirs(self.root)
        self.git("init", "-q")
        self.git("commit", "-q", "--allow-empty", "-m", "x")
        self.go_sum = open(os.path.join(common.REPO, "go.sum")).read()
        self.no_shrink = False

    def git(self, *args):
        e = dict(self.env, GIT_AUTHOR_NAME="v", GIT_AUTHOR_EMAIL="v@v", GIT_COMMITTER_NAME="v", GIT_COMMITTER_EMAIL="v@v",
                 GIT_CONFIG_NOSYSTEM="1")
        p = common.run(["git"] + list(args), cwd=self.root, env=e)
        if p.returncode != 0:
            raise NoVerdict("git %s: %s" % (args, p.stdout))

    def case_dir(self):
        self.n += 1
        d = os.path.join(self.root, "c%d" % self.n)
        os.makedirs(d)
        return d

    def drop(self, d):
        subprocess.run(["chmod", "-R", "u+rwX", d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)

    def run(self, cmd, cwd, timeout=240, env=None, mem=None):
        def limit():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        p = subprocess.Popen(cmd, cwd=cwd, env=env or self.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True, preexec_fn=limit if mem else None)
        timed = False
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, e = p.communicate()
        return Result(p.returncode, o.decode(errors="replace"), e.decode(errors="replace"), timed)

    def hs(self, args, cwd, timeout=240, env=None, mem=None):
        """Runs `hotswap build args...`."""
        r = self.run([self.cli, "build"] + args, cwd, timeout, env, mem)
        if "signal: killed" in r.text() or "cannot allocate memory" in r.text() or "no space left" in r.text():
            raise NoVerdict("out of resources:\n" + r.text())
        return r

    def plain_mod(self, d, path="vm"):
        write(os.path.join(d, "go.mod"), "module %s\n\ngo 1.26\n" % path)

    def full_mod(self, d, path="vm"):
        write(os.path.join(d, "go.mod"), common.go_mod_text(path))
        write(os.path.join(d, "go.sum"), self.go_sum)


def tmp_dirs(parent, name, before):
    """Directories that appeared next to the plugin."""
    return [n for n in sorted(os.listdir(parent)) if n not in before and os.path.isdir(os.path.join(parent, n))]


def dumps(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True)
