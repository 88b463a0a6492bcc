"""Driver: facts of the current tree, reports, known findings, evidence."""
import concurrent.futures
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GINGA_REPO", "/repo").rstrip("/")
sys.path.insert(0, HERE)

from prog import Prog, AnchorGone  # noqa: E402
import absint  # noqa: E402
from absint import Budget  # noqa: E402

CONFIG = """#define PACKAGE_BUGREPORT "bugs@telemidia.puc-rio.br"
#define PACKAGE_NAME "ginga"
#define PACKAGE_STRING "ginga"
#define PACKAGE_URL "http://github.com/telemidia/ginga"
#define PACKAGE_VERSION "1.0"
#define TOP_SRCDIR "%(repo)s/"
#define ABS_TOP_SRCDIR "%(repo)s/"
#define GINGADATADIR "/usr/share/ginga/"
#define GINGABINDIR "/usr/bin"
#define WITH_LUA 1
"""
PKGS = ("glib-2.0 gobject-2.0 gio-2.0 libsoup-2.4 libxml-2.0 gdk-3.0 cairo "
        "pangocairo librsvg-2.0 gstreamer-app-1.0 gstreamer-video-1.0 "
        "gtk+-3.0 jsoncpp lua5.3").split()
# translation units that need headers this sandbox does not have
SKIP_UNITS = {"PlayerHTML.cpp"}


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          universal_newlines=True)


def extractor():
    """Builds the fact extractor (cached by the hash of its source)."""
    src = os.path.join(HERE, "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, "build"),
              os.path.join(tempfile.gettempdir(), "ginga-verif-build")):
        exe = os.path.join(d, "gfacts-" + h)
        if os.path.exists(exe) and os.access(exe, os.X_OK):
            return exe
    for d in (os.path.join(VERIF, "build"),
              os.path.join(tempfile.gettempdir(), "ginga-verif-build")):
        try:
            os.makedirs(d, exist_ok=True)
            break
        except OSError:
            continue
    exe = os.path.join(d, "gfacts-" + h)
    flags = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = exe + ".%d" % os.getpid()
    r = sh(["g++", "-O1", "-std=c++17", "-fno-rtti", "-w"] + flags +
           [src, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
            "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if r.returncode != 0:
        raise RuntimeError("extractor does not build: " + r.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def load(units=None):
    """Facts of every translation unit of the current tree."""
    cached = os.environ.get("VERIF_FACTS")
    if cached:
        return Prog(cached)
    exe = extractor()
    tmp = tempfile.mkdtemp(prefix="ginga-facts-")
    try:
        cfg = os.path.join(tmp, "cfg")
        out = os.path.join(tmp, "out")
        os.mkdir(cfg)
        os.mkdir(out)
        with open(os.path.join(cfg, "config.h"), "w") as f:
            f.write(CONFIG % {"repo": REPO})
        flags = ["-std=c++11", "-xc++", "-w", "-I" + cfg, "-I" + REPO + "/lib",
                 "-I" + os.path.join(VERIF, "stubs"),
                 "-I" + REPO + "/src/gingagui"]
        flags += sh(["pkg-config", "--cflags"] + PKGS).stdout.split()
        flags += ["-resource-dir",
                  sh(["clang-18", "-print-resource-dir"]).stdout.strip()]
        files = [os.path.join(REPO, "lib", f)
                 for f in sorted(os.listdir(REPO + "/lib"))
                 if f.endswith(".cpp") and f not in SKIP_UNITS]
        files.append(os.path.join(REPO, "src", "ginga.cpp"))

        def one(f):
            n = os.path.basename(f)[:-4]
            if n == "ginga":
                n = "src-ginga"
            return f, sh([exe, REPO + "/", os.path.join(out, n + ".json"), f]
                         + flags)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for f, r in ex.map(one, files):
                if r.returncode != 0:
                    raise RuntimeError("cannot analyse %s: %s"
                                       % (f, r.stderr[-1500:]))
        p = Prog(out)
        if p.errors:
            raise RuntimeError("units with parse errors: %s" % p.errors)
        return p
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Ctx:
    """What a check reports through."""

    def __init__(self, pid, tier, prog):
        self.pid = pid
        self.tier = tier
        self.p = prog
        self.viol = []
        self.counts = {}
        self.rules = []
        self.samples = []
        self.functions = set()
        self.undecided = []

    def violation(self, key, msg, detail=""):
        """key identifies the construct, not the position."""
        if any(v[0] == key for v in self.viol):
            return
        self.viol.append((key, msg, detail))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def saw(self, keys):
        self.functions.update(keys)

    def require(self, n, least, what):
        if n < least:
            raise AnchorGone("%s: %d instances, expected at least %d"
                             % (what, n, least))


def known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        prog = load()
        if pid[0] == "+":
            import_only(prog)
        mod = importlib.import_module("checks." + pid)
        ctx = Ctx(pid, tier, prog)
        mod.check(ctx)
        if absint.REPEATS and not ctx.viol:
            raise Budget("effects repeated by a loop of %s"
                         % sorted(set(absint.REPEATS))[0])
    except AnchorGone as e:
        print("ANALYSIS-BROKEN property=%s anchor gone: %s" % (pid, e))
        return 3
    except Budget as e:
        print("ANALYSIS-BROKEN property=%s undecided: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s" % pid)
        return 3
    kn = {f["key"]: f for f in known() if f["property"] == pid}
    new = [v for v in ctx.viol if v[0] not in kn]
    old = [v for v in ctx.viol if v[0] in kn]
    cov = {
        "explanation": mod.__doc__.strip(),
        "rules": ctx.rules,
        "translation_units": len(prog.units),
        "functions_in_program": len(prog.fns),
        "functions_analysed": len(ctx.functions),
        "analysed": sorted(ctx.functions)[:200],
        "counts": ctx.counts,
        "samples": ctx.samples,
        "violations": [v[0] for v in new],
        "known_findings_seen": [v[0] for v in old],
        "undecided": ctx.undecided,
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed,
                   "level": "other", "coverage": cov,
                   "wall_s": round(time.time() - t0, 2)}, f, indent=1)
    for k, msg, det in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]["what"]))
    for u in ctx.undecided:
        print("UNDECIDED: property=%s %s" % (pid, u))
    rp = os.path.join(ev, pid + ".violations.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, "w") as f:
            for k, msg, det in new:
                f.write("[%s]\n%s\n%s\n\n" % (k, msg, det))
        for k, msg, det in new[:25]:
            print("%s: %s  [%s]" % (pid, msg[:600], k))
        if len(new) > 25:
            print("... %d in all, see %s" % (len(new), rp))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s: %s (%.1fs)" % (
        pid, ", ".join("%s=%s" % x for x in sorted(ctx.counts.items())),
        time.time() - t0))
    return 0


def import_only(prog):
    pass


if __name__ == "__main__":
    sys.exit(main(sys.argv))
