"""Builds the check programs against /repo's current working tree.

Nothing is written in /repo: the sources under /verif/go appear as packages
below /repo/internal/zverif through -overlay, and a copy of go.mod (-modfile)
adds the shim modules where a check needs an instrumented build.
"""
import json, os, shutil, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZV_REPO_DIR", "/repo")


class BuildError(Exception):
    pass


def goenv(**kw):
    e = dict(os.environ)
    for k in ("GOFLAGS", "GOOS", "GOARCH", "GOWORK"):
        e.pop(k, None)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="0", GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1")
    e.update(kw)
    return e


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("$ %s\n%s" % (" ".join(cmd), p.stdout[-8000:]))
    return p.stdout


class Build:
    # binary -> (package below internal/zverif or a special kind, instrumented, race)
    # instrumentation: None, or (what to redirect in the repo, steps)
    KINDS = {
        "seq": ("seq", None),
        "web": ("web", None),
        "mon": ("mon", "driver"),
        "proc": ("../../cmd/ratus", "proc"),
        "conc": ("conc", dict(dirs=["internal/engine/memdb", "internal/nonce"], map="sync,atomic,os,rand", steps=False)),
        "steps": ("conc", dict(dirs=["internal/engine/memdb", "internal/nonce"], map="sync,atomic,os,rand", steps=True)),
    }

    def __init__(self, d):
        self.dir = os.path.abspath(d)
        os.makedirs(self.dir, exist_ok=True)
        self._plain = None
        self._instr = None

    def overlay(self):
        if self._plain is None:
            r = {}
            src = os.path.join(VERIF, "go")
            for d, _, fs in os.walk(src):
                for f in fs:
                    if f.endswith(".go"):
                        p = os.path.join(d, f)
                        r[os.path.join(REPO, "internal", "zverif", os.path.relpath(p, src))] = p
            self._plain = r
        return dict(self._plain)

    def modfile(self, name="go.mod", extra=""):
        m = os.path.join(self.dir, name)
        if not os.path.exists(m):
            with open(m, "w") as f:
                f.write(open(os.path.join(REPO, "go.mod")).read() + extra)
            shutil.copy(os.path.join(REPO, "go.sum"), m[:-4] + ".sum")
            os.chmod(m[:-4] + ".sum", 0o644)
        return m

    def instr(self, src, dst, map, steps):
        if self._instr is None:
            self._instr = os.path.join(self.dir, "instr")
            sh(["go", "build", "-o", self._instr, "."], cwd=os.path.join(VERIF, "tools", "instr"), env=goenv())
        sh([self._instr, "-map", map] + (["-steps"] if steps else []) + [src, dst])

    def instrumented(self, kind, inst, overlay):
        """Instrumented copies of repo packages (overlay) and of go-memdb (replace)."""
        base = os.path.join(self.dir, "inst-" + kind)
        for d in inst["dirs"]:
            src = os.path.join(REPO, d)
            if not os.path.isdir(src):
                continue
            dst = os.path.join(base, d)
            self.instr(src, dst, inst["map"], inst["steps"])
            for f in os.listdir(dst):
                overlay[os.path.join(src, f)] = os.path.join(dst, f)
        mem = sh(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/hashicorp/go-memdb"], cwd=REPO, env=goenv()).strip().splitlines()[-1]
        dst = os.path.join(base, "go-memdb")
        os.makedirs(dst, exist_ok=True)
        for f in os.listdir(mem):
            if f in ("go.mod", "go.sum"):
                shutil.copy(os.path.join(mem, f), os.path.join(dst, f))
                os.chmod(os.path.join(dst, f), 0o644)
        self.instr(mem, dst, "sync,atomic", False)
        with open(os.path.join(dst, "go.mod"), "a") as f:
            f.write("\nrequire verif.local/shim v0.0.0\n")
        extra = "\nrequire verif.local/shim v0.0.0\nreplace verif.local/shim => %s\nreplace github.com/hashicorp/go-memdb => %s\n" % (os.path.join(VERIF, "shim"), dst)
        return self.modfile("%s.mod" % kind, extra)

    def process(self, overlay):
        """The main package with its test, the engine's file system redirected,
        and the standard library made controllable (network listeners, signals,
        the end of the process, the choice of select)."""
        src = os.path.join(REPO, "internal/engine/memdb")
        dst = os.path.join(self.dir, "inst-proc")
        self.instr(src, dst, "os", False)
        for f in os.listdir(dst):
            overlay[os.path.join(src, f)] = os.path.join(dst, f)
        for f in os.listdir(os.path.join(VERIF, "proc")):
            if f.endswith("_test.go"):
                overlay[os.path.join(REPO, "cmd/ratus", "zverif_" + f)] = os.path.join(VERIF, "proc", f)
        std = sh(["go", "env", "GOROOT"], cwd=REPO, env=goenv()).strip() + "/src/"
        out = os.path.join(self.dir, "std")

        def edit(name, *edits):
            s = open(std + name, encoding="utf-8").read()
            for a, b in edits:
                if s.count(a) != 1:
                    raise BuildError("%s does not contain %r once" % (name, a))
                s = s.replace(a, b)
            q = os.path.join(out, name)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w", encoding="utf-8").write(s)
            overlay[std + name] = q

        def add(name):
            overlay[std + name] = os.path.join(VERIF, "proc", "std", name)

        edit("os/proc.go", ("func Exit(code int) {\n", "func Exit(code int) {\n\tif ZVExit != nil {\n\t\tZVExit(code)\n\t}\n"))
        add("os/zv.go")
        edit("net/dial.go", ("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
                             "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif ZVListen != nil {\n\t\treturn ZVListen(network, address)\n\t}\n"))
        add("net/zv.go")
        add("os/signal/zv.go")
        edit("runtime/select.go",
             ("\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := uint32(norder)\n\t\tif zvSelect == 0 {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n"),
             ("\tpollorder = pollorder[:norder]\n", "\tpollorder = pollorder[:norder]\n\tzvRotate(pollorder)\n"))
        add("runtime/zv.go")
        extra = "\nrequire verif.local/shim v0.0.0\nreplace verif.local/shim => %s\n" % os.path.join(VERIF, "shim")
        return self.driver("proc.mod", extra)

    def driver(self, mod="driver.mod", extra=""):
        """The MongoDB driver with its default dialer made replaceable."""
        name = "go.mongodb.org/mongo-driver"
        src = sh(["go", "list", "-m", "-f", "{{.Dir}}", name], cwd=REPO, env=goenv()).strip().splitlines()[-1]
        dst = os.path.join(self.dir, "driver")
        n = 0
        for d, _, fs in os.walk(src):
            for f in fs:
                if f in ("go.mod", "go.sum") or (f.endswith((".go", ".s", ".h")) and not f.endswith("_test.go")):
                    s = open(os.path.join(d, f), encoding="utf-8").read()
                    if f == "connection_options.go" and d.endswith("topology"):
                        n += s.count("cfg.dialer = &net.Dialer{}")
                        s = s.replace("cfg.dialer = &net.Dialer{}", "cfg.dialer = DefaultDialer")
                    q = os.path.join(dst, os.path.relpath(d, src), f)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, "w", encoding="utf-8") as o:
                        o.write(s)
        if n != 1:
            raise BuildError("the driver's default dialer was not found")
        return self.modfile(mod, extra + "\nreplace %s => %s\n" % (name, dst))

    def binary(self, kind):
        pkg, inst = self.KINDS[kind]
        out = os.path.join(self.dir, "bin", kind)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        ov = os.path.join(self.dir, "overlay-%s.json" % kind)
        r = self.overlay()
        mod = self.process(r) if inst == "proc" else self.driver() if inst == "driver" else self.instrumented(kind, inst, r) if inst else self.modfile()
        with open(ov, "w") as f:
            json.dump({"Replace": r}, f)
        sh(["go", "test", "-c", "-vet=off", "-o", out, "-overlay", ov, "-modfile", mod, "./internal/zverif/" + pkg], cwd=REPO, env=goenv())
        return out
