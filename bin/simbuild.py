"""Builds the simulation binaries from /repo's current working tree.

Nothing in /repo or in the Go toolchain is written: the standard library seams,
the scheduling points and the harness come in through `go build -overlay`.
"""
import json, os, subprocess, sys, shutil, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.23.12"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update({
        "PATH": GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": "/root", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off",
        "GOCACHE": os.path.join(VERIF, ".cache", "gocache"),
        "GOROOT": GOROOT,
    })
    e.pop("GODEBUG", None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=kw.pop("env", env()), **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-4000:]))
    return p.stdout


def patch(src, reps):
    s = open(src).read()
    for a, b in reps:
        if s.count(a) != 1:
            raise BuildError("std patch: %s: %d matches for %r" % (src, s.count(a), a))
        s = s.replace(a, b)
    return s


def std_overlay(out):
    """Seams in the standard library."""
    repl = {}

    def put(rel, text):
        p = os.path.join(out, "std__" + rel.replace("/", "__"))
        with open(p, "w") as f:
            f.write(text)
        repl[GOROOT + "/src/" + rel] = p

    src = GOROOT + "/src/"
    here = os.path.join(VERIF, "sim", "std")
    put("sync/simcore.go", open(here + "/sync_simcore.go").read())
    put("runtime/simrand.go", open(here + "/runtime_simrand.go").read())
    put("runtime/rand.go", patch(src + "runtime/rand.go", [
        ("func rand() uint64 {\n", "func rand() uint64 {\n\tif simRandOn && getg().goid == simRandGoid {\n\t\treturn simNextRand()\n\t}\n"),
        ("\tmp.cheaprand = rand()\n", "\tmp.cheaprand = bootstrapRand()\n"),
        ("\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i * 7)\n\t}\n\tglobalRand.state.Init(*seed)\n"),
    ]))
    put("sync/mutex.go", patch(src + "sync/mutex.go", [
        ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tif simMine() {\n\t\tsimMutexLock(m)\n\t\treturn\n\t}\n"),
        ("func (m *Mutex) Unlock() {\n", "func (m *Mutex) Unlock() {\n\tif simMine() {\n\t\tsimMutexUnlock(m)\n\t\treturn\n\t}\n\tm.unlockReal()\n}\n\nfunc (m *Mutex) unlockReal() {\n"),
    ]))
    s = patch(src + "sync/rwmutex.go", [
        ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tif simMine() {\n\t\tsimRLock(rw)\n\t\treturn\n\t}\n"),
        ("func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n\tif simMine() {\n\t\tsimRUnlock(rw)\n\t\treturn\n\t}\n\trw.rUnlockReal()\n}\n\nfunc (rw *RWMutex) rUnlockReal() {\n"),
        ("func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\tif simMine() {\n\t\tsimWLock(rw)\n\t\treturn\n\t}\n"),
        ("func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n\tif simMine() {\n\t\tsimWUnlock(rw)\n\t\treturn\n\t}\n\trw.unlockReal()\n}\n\nfunc (rw *RWMutex) unlockReal() {\n"),
    ])
    s = s.replace("rw.w.Unlock()", "rw.w.unlockReal()")
    put("sync/rwmutex.go", s)
    put("sync/waitgroup.go", patch(src + "sync/waitgroup.go", [
        ("\tif v < 0 {\n\t\tpanic(\"sync: negative", "\tif v == 0 && simMine() {\n\t\tsimWake(unsafe.Pointer(wg))\n\t}\n\tif v < 0 {\n\t\tpanic(\"sync: negative"),
        ("func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n\tif simMine() {\n\t\tsimWGWait(wg)\n\t}\n"),
    ]))
    put("sync/pool.go", patch(src + "sync/pool.go", [
        ("func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif simPoolOff {\n\t\treturn\n\t}\n"),
        ("func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif simPoolOff {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"),
    ]))
    m = open(src + "sync/map.go").read()
    for fn in ("Load(key any) (value any, ok bool)", "LoadOrStore(key, value any) (actual any, loaded bool)",
               "LoadAndDelete(key any) (value any, loaded bool)", "Swap(key, value any) (previous any, loaded bool)",
               "CompareAndSwap(key, old, new any) (swapped bool)", "CompareAndDelete(key, old any) (deleted bool)",
               "Range(f func(key, value any) bool)"):
        a = "func (m *Map) %s {\n" % fn
        if m.count(a) != 1:
            raise BuildError("std patch: sync.Map." + fn)
        m = m.replace(a, a + "\tsimMapPoint()\n")
    put("sync/map.go", m)
    put("time/time.go", patch(src + "time/time.go", [
        ("func Now() Time {\n\tsec, nsec, mono := now()\n",
         "func Now() Time {\n\tif SimNow != nil {\n\t\treturn SimNow()\n\t}\n\tsec, nsec, mono := now()\n"),
    ]) + "\n// SimNow, when set, is the simulated wall clock.\nvar SimNow func() Time\n")
    return repl


def cli_overlay(out, repl):
    """The system call seam of the command line tool."""
    src = GOROOT + "/src/syscall/"

    def put(rel, text):
        p = os.path.join(out, "cli__" + rel)
        with open(p, "w") as f:
            f.write(text)
        repl[src + rel] = p

    put("simio.go", open(os.path.join(VERIF, "sim", "std", "syscall_simio.go")).read())
    put("syscall_unix.go", patch(src + "syscall_unix.go", [
        ("func Read(fd int, p []byte) (n int, err error) {\n",
         "func Read(fd int, p []byte) (n int, err error) {\n\tif n, err, done := simIORead(fd, p); done {\n\t\treturn n, err\n\t}\n"),
        ("func Write(fd int, p []byte) (n int, err error) {\n",
         "func Write(fd int, p []byte) (n int, err error) {\n\tif n, err, done := simIOWrite(fd, p); done {\n\t\treturn n, err\n\t}\n"),
    ]))

    def onpath(sig, op, path, extra, writes, ret="err"):
        return (sig + " {\n", sig + " {\n\tif e := simIOOnPath(%s, %s, %s, %s); e != nil {\n\t\treturn e\n\t}\n" % (op, path, extra, writes))

    put("syscall_linux.go", patch(src + "syscall_linux.go", [
        onpath("func Chmod(path string, mode uint32) (err error)", '"chmod"', "path", '""', "true"),
        onpath("func Link(oldpath string, newpath string) (err error)", '"link"', "oldpath", "newpath", "true"),
        onpath("func Mkdir(path string, mode uint32) (err error)", '"mkdir"', "path", '""', "true"),
        onpath("func Rename(oldpath string, newpath string) (err error)", '"rename"', "oldpath", "newpath", "true"),
        onpath("func Rmdir(path string) error", '"rmdir"', "path", '""', "false"),
        onpath("func Symlink(oldpath string, newpath string) (err error)", '"symlink"', "newpath", '""', "true"),
        onpath("func Unlink(path string) error", '"unlink"', "path", '""', "false"),
        ("\treturn openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n",
         "\tname, e := simIOOpen(path, mode)\n\tif e != nil {\n\t\treturn -1, e\n\t}\n\tfd, err = openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n\tif err == nil {\n\t\tsimIOOpened(fd, name)\n\t}\n\treturn fd, err\n"),
        ("\treturn Getdents(fd, buf)\n", "\tif e := simIOOnFd(\"readdir\", fd, 0, false); e != nil {\n\t\treturn -1, e\n\t}\n\treturn Getdents(fd, buf)\n"),
    ]))
    put("syscall_linux_amd64.go", patch(src + "syscall_linux_amd64.go", [
        onpath("func Stat(path string, stat *Stat_t) (err error)", '"stat"', "path", '""', "false"),
        onpath("func Lstat(path string, stat *Stat_t) (err error)", '"lstat"', "path", '""', "false"),
    ]))

    def onfd(sig, op, extra, writes):
        return (sig + " {\n", sig + " {\n\tif e := simIOOnFd(\"%s\", fd, %s, %s); e != nil {\n\t\treturn e\n\t}\n" % (op, extra, writes))

    put("zsyscall_linux_amd64.go", patch(src + "zsyscall_linux_amd64.go", [
        ("func Close(fd int) (err error) {\n\t_, _, e1", "func Close(fd int) (err error) {\n\tsimErr := simIOClose(fd)\n\t_, _, e1"),
        ("\t_, _, e1 := Syscall(SYS_CLOSE, uintptr(fd), 0, 0)\n", "\t_, _, e1 := Syscall(SYS_CLOSE, uintptr(fd), 0, 0)\n\tif simErr != nil {\n\t\treturn simErr\n\t}\n"),
        onfd("func Fsync(fd int) (err error)", "fsync", "0", "true"),
        onfd("func Ftruncate(fd int, length int64) (err error)", "ftruncate", "int(length)", "true"),
        onfd("func Fchmod(fd int, mode uint32) (err error)", "fchmod", "int(mode)", "true"),
        onfd("func Fstat(fd int, stat *Stat_t) (err error)", "fstat", "0", "false"),
    ]))


INSTR_DIRS = [".", "vmux", "load", "errors", "internal/util", "internal/cuetil", "internal/compat",
              "internal/astutil", "internal/legacy", "encoding/cue", "encoding/openapi", "encoding/jsonschema",
              "encoding/gocode", "encoding/typescript"]


def build(out, race=False, cli=False, world=True):
    """Returns dict of built artefacts under out."""
    os.makedirs(out, exist_ok=True)
    os.makedirs(env()["GOCACHE"], exist_ok=True)
    ov = os.path.join(out, "ov")
    os.makedirs(ov, exist_ok=True)
    e = env()
    repl = std_overlay(ov)
    instr = os.path.join(out, "instr")
    te = dict(e)
    te["GOFLAGS"] = ""
    run(["go", "build", "-o", instr, os.path.join(VERIF, "sim", "tools", "instr", "main.go")], env=te, cwd=out)
    dirs = list(INSTR_DIRS)
    # any new library package directly below the root is instrumented as well
    j = json.loads(run([instr, ov, REPO] + dirs))
    repl.update(j["replace"])
    sites = os.path.join(out, "sites.json")
    json.dump(j["sites"], open(sites, "w"))
    for f in glob.glob(os.path.join(VERIF, "sim", "world", "*.go")):
        repl[os.path.join(REPO, "internal", "verifsim", os.path.basename(f))] = f
    ovf = os.path.join(out, "overlay.json")
    json.dump({"Replace": repl}, open(ovf, "w"))
    mod = os.path.join(out, "go.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(out, "go.sum"))
    res = {"sites": sites}
    base = ["go", "build", "-overlay", ovf, "-modfile", mod]
    if world:
        res["sim"] = os.path.join(out, "sim")
        run(base + ["-o", res["sim"], "./internal/verifsim"], cwd=REPO, env=e)
    if cli:
        crepl = std_overlay(ov)
        cli_overlay(ov, crepl)
        cov = os.path.join(out, "overlay-cli.json")
        json.dump({"Replace": crepl}, open(cov, "w"))
        res["cli"] = os.path.join(out, "thema")
        run(["go", "build", "-overlay", cov, "-modfile", mod, "-o", res["cli"], "./cmd/thema"], cwd=REPO, env=e)
    if race:
        res["simrace"] = os.path.join(out, "simrace")
        run(base + ["-race", "-o", res["simrace"], "./internal/verifsim"], cwd=REPO, env=e)
    return res


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        r = build(sys.argv[1], race="race" in sys.argv, cli="cli" in sys.argv)
    except BuildError as x:
        print(x)
        sys.exit(2)
    print(r, round(time.time() - t, 1))
