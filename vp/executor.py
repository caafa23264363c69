"""Builds and drives the executor: the real source tree (scratch copy) plus a command loop."""
import os, re, shutil, subprocess, select, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


class BuildError(Exception):
    pass


def build(work, repo=REPO):
    d = os.path.join(work, "exec")
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(d, "src"))
    main = os.path.join(d, "src", "main.rs")
    s = open(main).read()
    s, n = re.subn(r"\bfn\s+main\s*\(\s*\)", "#[allow(dead_code)] fn repo_main()", s, count=1)
    if n != 1:
        raise BuildError("no fn main() in main.rs")
    s += "\nmod vp_exec;\nfn main() { vp_exec::main() }\n"
    open(main, "w").write(s)
    hook_mod = None
    for root, _, files in os.walk(os.path.join(d, "src")):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith(".rs") and re.search(r"\btrait\s+LimitTry\b", open(p).read()):
                rel = os.path.relpath(p, os.path.join(d, "src"))[:-3].split(os.sep)
                if rel[-1] == "mod":
                    rel = rel[:-1]
                hook_mod = "crate::" + "::".join(rel)
                with open(p, "a") as h:
                    h.write(open(os.path.join(VERIF, "harness", "limit_hook.rs")).read())
    ex = open(os.path.join(VERIF, "harness", "vp_exec.rs")).read()
    if hook_mod:
        ex = ex.replace("crate::compute::limit::vp_hook", hook_mod + "::vp_hook")
    open(os.path.join(d, "src", "vp_exec.rs"), "w").write(ex)
    edition = "2021"
    m = re.search(r'edition\s*=\s*"(\d+)"', open(os.path.join(repo, "Cargo.toml")).read())
    if m:
        edition = m.group(1)
    out = os.path.join(d, "exec")
    r = subprocess.run(["rustc", "--edition", edition, "-C", "opt-level=1", "-C", "overflow-checks=on", "-C", "debug-assertions=on",
                        "--cap-lints", "allow", "--crate-name", "vp_exec_bin", main, "-o", out], capture_output=True, text=True, timeout=300)
    if r.returncode != 0:
        raise BuildError(r.stderr[-3000:])
    return out


class Executor:
    def __init__(self, path):
        self.path = path
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0,
                                  preexec_fn=self._limits)
        self.buf = b""

    @staticmethod
    def _limits():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    def run(self, cmd, timeout=5.0):
        """Result line of the real code; '!crash' when the process died, '!hang' when it did not answer."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(cmd.encode() + b"\n")
        except BrokenPipeError:
            self.start()
            self.p.stdin.write(cmd.encode() + b"\n")
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.close()
                return "!hang no result within %gs" % timeout
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                b = os.read(self.p.stdout.fileno(), 1 << 16)
                if not b:
                    self.p.wait()
                    self.p = None
                    return "!crash the process died (stack overflow or abort)"
                self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode("utf-8", "replace")

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def parse(s):
    """s-expression(s) -> nested lists of strings"""
    st = [[]]
    cur = ""
    for ch in s:
        if ch in "() ":
            if cur:
                st[-1].append(cur)
                cur = ""
            if ch == "(":
                st.append([])
            elif ch == ")":
                x = st.pop()
                st[-1].append(x)
        else:
            cur += ch
    if cur:
        st[-1].append(cur)
    return st[0]


def fmt(x):
    return x if isinstance(x, str) else "(" + " ".join(fmt(y) for y in x) + ")"
