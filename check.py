#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property on the working tree of /repo
   check.py replay FILE           replay a recorded violation on the working tree
   check.py setup                 build once
   check.py selftest              compare the explorer with plain enumeration

Exit 0: the property held on everything explored; 1: VIOLATION; 2: no answer.
Everything is built in a scratch directory that is removed at the end.
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")

ENV = dict(os.environ)
for k in ("GOMAXPROCS", "GORACE", "GODEBUG", "GOOS", "GOARCH", "GOEXPERIMENT", "GOGC", "GOMEMLIMIT"):
    ENV.pop(k, None)
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off", CGO_ENABLED="0")
ENV.setdefault("HOME", "/root")
ENV.setdefault("PATH", "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin")


class NoAnswer(Exception):
    pass


def sh(args, cwd, env=None, limit=600):
    e = dict(ENV)
    e.update(env or {})
    p = subprocess.run(args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    return p.returncode, p.stdout


def must(args, cwd, env=None):
    rc, out = sh(args, cwd, env)
    if rc:
        raise NoAnswer("%s failed:\n%s" % (" ".join(args), out[-4000:]))


def violation(prop, variant, kind, msg, tier, t0):
    """A violation found before any exploration (the package does not build or cannot be generated)."""
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%s-%d.json" % (prop, variant, os.getpid()))
    with open(path, "w") as f:
        json.dump({"Property": prop, "Variant": variant, "Fail": {"Kind": kind, "Msg": msg}, "Static": True}, f, indent=1)
    ev = {"property": prop, "tier": tier, "seed": seed(), "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [msg[:2000]],
                       "exhaustive": False, "explanation": kind}, "wall_s": round(time.time() - t0, 2), "violations": 1}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s" % (kind, msg[:3000]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


class Build:
    """The instrumented package and the explorer, built from the working tree."""

    def __init__(self, tmp, variant, arch, prop=""):
        self.prop, self.tmp, self.variant, self.arch = prop, tmp, variant, arch
        self.helpers = prop == "C19"  # give the harness access to the package's internal helpers (C19)
        self.level = None
        self.src = os.path.join(tmp, "src")
        shutil.copytree(REPO, self.src, ignore=lambda d, names: [n for n in names if n == ".git" or n.endswith("_test.go")], symlinks=True)
        self.broken = None  # (kind, message) when the code itself does not build

    def generate(self):
        """C15: replace the committed sets by what the generator emits."""
        olds = [n for n in os.listdir(self.src) if n.startswith("gen_") and n.endswith(".go")]
        for n in olds:
            os.remove(os.path.join(self.src, n))
        rc, out = sh(["go", "run", "gen.go"], self.src)
        if rc:
            self.broken = ("generator", "go run gen.go failed:\n" + out[-3000:])
            return
        rc, out = sh(["go", "build", "./..."], self.src)
        if rc:
            self.broken = ("generator", "the generated package does not compile:\n" + out[-3000:])

    def build(self):
        tmp = self.tmp
        must(["go", "build", "-o", os.path.join(tmp, "instr"), "."], os.path.join(VERIF, "instr"))
        goarch = {"GOARCH": self.arch} if self.arch != "amd64" else {}
        if self.variant == "generated":
            self.generate()
            if self.broken:
                return
        if goarch:
            rc, out = sh(["go", "build", "./..."], self.src, goarch)
            if rc:
                if sh(["go", "build", "./..."], self.src)[0]:
                    raise NoAnswer("the package does not build:\n" + out[-3000:])
                self.broken = ("build", "the package does not build for GOARCH=%s:\n%s" % (self.arch, out[-3000:]))
                return
        why = ""
        for level in ("full", "sync"):
            root = os.path.join(tmp, level)
            shutil.copytree(os.path.join(VERIF, "mc"), os.path.join(root, "mc"))
            dst = os.path.join(root, "skipset")
            os.makedirs(dst)
            rc, out = sh([os.path.join(tmp, "instr"), "-src", self.src, "-dst", dst, "-level", level], self.src, goarch)
            tags = []
            if self.helpers:
                tags = ["-tags", "helpers"]
                shutil.copy(os.path.join(VERIF, "mc", "export", "zz_verif_export.go.txt"), os.path.join(dst, "zz_verif_export.go"))
            if rc == 0:
                rc, out = sh(["go", "build"] + tags + ["-o", os.path.join(root, "worker"), "./cmd/mc"], os.path.join(root, "mc"), goarch)
            if rc == 0:
                self.level, self.root = level, root
                break
            why += "level %s: %s\n" % (level, out[-3000:])
        if self.level is None:
            if self.variant == "generated" and sh(["go", "build", "./..."], REPO)[0] == 0 and self.api_missing():
                self.broken = ("generator", "the generated package does not export what the committed one does:\n" + why[-3000:])
                return
            if self.prop == "C08" and sh(["go", "build", "./..."], self.src)[0] == 0:
                # is it the exported interface that lacks something the harness uses?
                pl = os.path.join(tmp, "plain")
                shutil.copytree(os.path.join(VERIF, "mc"), os.path.join(pl, "mc"))
                shutil.copytree(self.src, os.path.join(pl, "skipset"))
                if os.path.exists(os.path.join(self.src, "go.sum")):
                    shutil.copy(os.path.join(self.src, "go.sum"), os.path.join(pl, "mc", "go.sum"))
                rc, out = sh(["go", "build", "-o", os.path.join(pl, "worker"), "./cmd/mc"], os.path.join(pl, "mc"))
                if rc and "cmd/mc/" in out:
                    self.broken = ("api", "a documented constructor or element type is not accepted:\n" + out[-3000:])
                    return
            raise NoAnswer("cannot instrument or build:\n" + why)
        self.worker = self.coord = os.path.join(self.root, "worker")
        self.plain = None
        if goarch:
            self.coord = os.path.join(self.root, "coordinator")
            must(["go", "build", "-o", self.coord, "./cmd/mc"], os.path.join(self.root, "mc"))
            # the very code of the working tree, not instrumented
            pl = os.path.join(tmp, "plain")
            shutil.copytree(os.path.join(VERIF, "mc"), os.path.join(pl, "mc"))
            shutil.copytree(self.src, os.path.join(pl, "skipset"))
            for n in ("go.sum",):
                if os.path.exists(os.path.join(self.src, n)):
                    shutil.copy(os.path.join(self.src, n), os.path.join(pl, "mc", n))
            self.plain = os.path.join(pl, "worker")
            must(["go", "build", "-o", self.plain, "./cmd/mc"], os.path.join(pl, "mc"), goarch)

    def api_missing(self):
        """Does the generated package lack exported names that the committed one has?"""
        def names(d):
            rc, out = sh(["go", "doc", "-short", "."], d)
            return set(out.split("\n")) if rc == 0 else set()
        return bool(names(REPO) - names(self.src))


def variant_of(prop):
    return ("generated" if prop == "C15" else "committed"), ("386" if prop == "C16" else "amd64")


def check(prop, tier):
    t0 = time.time()
    variant, arch = variant_of(prop)
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        b = Build(tmp, variant, arch, prop)
        b.build()
        if b.broken:
            return violation(prop, variant, b.broken[0], b.broken[1], tier, t0)
        args = [b.coord, "run", "-prop", prop, "-tier", tier, "-seed", str(seed()), "-evidence", os.path.join(VERIF, "evidence", prop + ".json"),
                "-out", OUT, "-variant", variant, "-arch", arch, "-level", b.level, "-bin", b.worker, "-started", str(int(t0 * 1000))]
        if b.plain:
            args += ["-plainbin", b.plain]
        return subprocess.call(args, cwd=tmp, env=ENV)


def replay(path):
    with open(path) as f:
        rf = json.load(f)
    variant, arch = variant_of(rf["Property"])
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        b = Build(tmp, variant, arch, rf["Property"])
        b.build()
        if rf.get("Static") or b.broken:
            if b.broken:
                print("happens: %s: %s" % b.broken)
                return 1
            print("does not happen on this tree")
            return 0
        fam = (rf.get("Task") or {}).get("Fam")
        return subprocess.call([b.plain if fam == "plain" else b.worker, "replay", os.path.abspath(path)], cwd=tmp, env=ENV)


def main(argv):
    try:
        if argv[:1] == ["replay"]:
            return replay(argv[1])
        if argv[:1] in (["selftest"], ["setup"]):
            with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
                b = Build(tmp, "committed", "amd64")
                b.build()
                if argv[0] == "setup":
                    print("built at level", b.level)
                    return 0
                return subprocess.call([b.worker, "selftest"], cwd=tmp, env=ENV)
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(argv[0], tier)
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        print("no answer: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
