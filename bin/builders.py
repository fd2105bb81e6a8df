"""Builds the harness executables from /repo's current working tree."""
import hashlib, json
import os, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_lock = threading.Lock()


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode != 0:
        raise BuildError("build failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-8000:]))
    return p.stdout.decode("utf-8", "replace")


def absl():
    return sh(["pkg-config", "--libs", "absl_flat_hash_map"]).split()


def cenv(**kw):
    e = dict(os.environ)
    e.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
             UBSAN_OPTIONS="print_stacktrace=0", TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_bugs=1")
    e.update(kw)
    return e


SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=undefined"]
CXX = ["-std=c++20", "-g1", "-DTOSCA_ASSERT_ENABLED=1", "-I" + ROOT + "/cpp", "-I" + ROOT + "/shim/c", "-I" + ROOT + "/shim/c/gen",
       "-I" + REPO + "/cpp"]


def cpp(name, sources, flags, tmp):
    out = os.path.join(tmp, name)
    sh(["clang++"] + CXX + flags + sources + ["-o", out] + absl())
    return {"cmd": [out], "env": cenv()}


def build_common(tmp):
    return cpp("common", [ROOT + "/cpp/common_harness.cc", REPO + "/cpp/vm/evmzero/opcodes.cc"], ["-O0"] + SAN, tmp)


def build_parts(tmp):
    """The building blocks of evmzero."""
    src = REPO + "/cpp/vm/evmzero/"
    return cpp("parts", [ROOT + "/cpp/parts_harness.cc"] + [src + f for f in ("memory.cc", "stack.cc", "opcodes.cc")],
               ["-O1", "-UTOSCA_ASSERT_ENABLED", "-fsanitize=address,bounds,shift,signed-integer-overflow", "-fno-sanitize-recover=all"], tmp)


def build_lru(tmp):
    return cpp("lru", [ROOT + "/cpp/lru_harness.cc"], ["-O0"] + SAN, tmp)


def build_lru_threads(tmp):
    return cpp("lru_threads", [ROOT + "/cpp/lru_threads.cc"], ["-O1", "-fsanitize=thread"], tmp)


# ---------------------------------------------------------------- Go harnesses
def goenv(**kw):
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), CC="gcc", CXX="g++", GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod",
             GOSUMDB="off", CGO_ENABLED="1", GOWORK="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(kw)
    return e


def go(name, pkg, tmp, env=None, flags=()):
    out = os.path.join(tmp, name)
    sh(["go", "build"] + list(flags) + ["-o", out, pkg], cwd=gomod(tmp), env=env or goenv())
    return {"cmd": [out], "env": cenv()}


def gomod(tmp):
    """The harness module; VERIF_REPO other than /repo (development only) needs a copy with its own link."""
    if REPO == "/repo":
        return ROOT + "/go"
    d = os.path.join(tmp, "gomod")
    with _lock:
        if not os.path.exists(d):
            os.makedirs(d)
            for f in os.listdir(ROOT + "/go"):
                if f != "toscamod":
                    os.symlink(ROOT + "/go/" + f, d + "/" + f)
            os.remove(d + "/go.mod")
            with open(d + "/go.mod", "w") as f:
                f.write(open(ROOT + "/go/go.mod").read().replace("../shim", ROOT + "/shim"))
            os.remove(d + "/go.sum")
            open(d + "/go.sum", "w").write(open(ROOT + "/go/go.sum").read())
            os.makedirs(d + "/toscamod")
            os.symlink(REPO + "/go", d + "/toscamod/go")
            open(d + "/toscamod/go.mod", "w").write(open(ROOT + "/go/toscamod/go.mod").read())
    return d


def build_tosca(tmp):
    return go("tosca", "./cmd/tosca", tmp)


def build_cov(tmp):
    """The coverage bridge in an instrumented and in a plain build, each with the Go driver on top."""
    exe = go("cov", "./cmd/cov", tmp)
    d = os.path.join(tmp, "cov.d")

    def variant(on):
        b = os.path.join(d, "on" if on else "off")
        m = os.path.join(b, "mirror")
        lib = m + "/cpp/build/common/coverage"
        os.makedirs(lib)
        shutil.copytree(REPO + "/go/lib/cpp", m + "/go/lib/cpp", ignore=shutil.ignore_patterns("*_test.go"))
        os.makedirs(m + "/driver")
        shutil.copy(ROOT + "/cpp/cov/driver/main.go", m + "/driver/main.go")
        shutil.copy(ROOT + "/cpp/cov/driver/probe.go.txt", m + "/go/lib/cpp/zz_probe.go")
        open(m + "/go.mod", "w").write("module mirror\n\ngo 1.22.0\n")
        flags = ["--coverage", "-DTOSCA_COVERAGE=1"] if on else []
        sh(["gcc", "-g", "-fPIC", "-shared"] + flags + [REPO + "/cpp/common/coverage/collect_coverage.c", "-o",
                                                      lib + "/libtosca_collect_coverage.so"], cwd=b)
        for p in "ab":
            sh(["gcc", "-g", "-O0", "-fPIC", "-c", "-DPAYLOAD=p" + p] + flags + [ROOT + "/cpp/cov/payload.c", "-o", b + "/payload_%s.o" % p], cwd=b)
            sh(["gcc", "-shared"] + flags + [b + "/payload_%s.o" % p, "-o", b + "/libpayload_%s.so" % p], cwd=b)
        sh(["go", "build", "-o", b + "/driver", "./driver"], cwd=m,
           env=goenv(CGO_LDFLAGS="-L%s -Wl,-rpath,%s" % (b, b), CGO_LDFLAGS_ALLOW=".*"))

    with ThreadPoolExecutor(2) as ex:
        list(ex.map(variant, [True, False]))
    exe["env"]["COV_DIR"] = d
    return exe


def evmzero_lib(tmp, flags=()):
    """libevmzero.so, built from the sources of the working tree with its assertions enabled."""
    d = os.path.join(tmp, "evmzero-" + hashlib.sha256(",".join(flags).encode()).hexdigest()[:12])
    os.makedirs(d, exist_ok=True)
    src = REPO + "/cpp/vm/evmzero"
    units = sorted(f[:-3] for f in os.listdir(src) if f.endswith(".cc") and not f.endswith(("_test.cc", "_benchmark.cc")))
    cc = ["g++", "-std=c++20", "-O1", "-fPIC", "-march=native", "-DTOSCA_ASSERT_ENABLED", "-I" + ROOT + "/shim/c", "-I" + ROOT + "/shim/c/gen",
          "-I" + REPO + "/cpp", "-I" + src] + list(flags)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda u: sh(cc + ["-c", "%s/%s.cc" % (src, u), "-o", "%s/%s.o" % (d, u)]), units))
    sh(["g++", "-shared", "-o", d + "/libevmzero.so"] + list(flags) + ["%s/%s.o" % (d, u) for u in units] + absl())
    return d


def build_vmz(tmp):
    """The interpreter harness on evmzero."""
    d = evmzero_lib(tmp)
    exe = go("vmz", "./cmd/vm", tmp, flags=["-tags", "evmzero"],
             env=goenv(CGO_CFLAGS="-O2 -I%s/shim/c" % ROOT, CGO_LDFLAGS="-L%s -Wl,-rpath,%s" % (d, d), CGO_LDFLAGS_ALLOW=".*"))
    exe["env"].update(LD_LIBRARY_PATH=d, VM_NAMES="evmzero")
    return exe


def build_vmza(tmp):
    """The interpreter harness on evmzero, with AddressSanitizer and those parts of UndefinedBehaviorSanitizer that find wrong results."""
    d = evmzero_lib(tmp, ["-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,bool,enum,return,unreachable",
                          "-fno-sanitize-recover=all"])
    exe = go("vmza", "./cmd/vm", tmp, flags=["-asan", "-tags", "evmzero"],
             env=goenv(CGO_CFLAGS="-O2 -I%s/shim/c" % ROOT, CGO_LDFLAGS="-L%s -Wl,-rpath,%s" % (d, d), CGO_LDFLAGS_ALLOW=".*"))
    exe["env"].update(LD_LIBRARY_PATH=d, VM_NAMES="evmzero")
    return exe


def build_vmzt(tmp):
    """The interpreter harness on evmzero with ThreadSanitizer."""
    d = evmzero_lib(tmp, ["-fsanitize=thread"])
    exe = go("vmzt", "./cmd/vm", tmp, flags=["-tags", "evmzero"],
             env=goenv(CGO_CFLAGS="-O2 -fsanitize=thread -I%s/shim/c" % ROOT, CGO_LDFLAGS="-fsanitize=thread -L%s -Wl,-rpath,%s" % (d, d),
                       CGO_CFLAGS_ALLOW=".*", CGO_LDFLAGS_ALLOW=".*"))
    exe["env"].update(LD_LIBRARY_PATH=d, VM_NAMES="evmzero",
                      TSAN_OPTIONS="halt_on_error=1:exitcode=66:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0")
    return exe


EVMRS_FEATURES = ["needs-jumptable", "needs-fn-ptr-conversion", "needs-cache", "unsafe-stack", "custom-evmc", "hash-cache", "code-analysis-cache",
                  "thread-local-cache", "alloc-reuse", "tail-call", "jumptable-dispatch", "fn-ptr-conversion-expanded-dispatch",
                  "fn-ptr-conversion-inline-dispatch", "mock", "fuzzing", "mimalloc"]
EVMRS_IMPLIES = {"hash-cache": ["needs-cache"], "code-analysis-cache": ["dep:nohash-hasher", "needs-cache"], "needs-cache": ["dep:lru"],
                 "jumptable-dispatch": ["needs-jumptable"], "needs-fn-ptr-conversion": ["needs-jumptable"],
                 "custom-evmc": ["dep:evmc-vm-tosca-refactor"],
                 "fn-ptr-conversion-expanded-dispatch": ["needs-fn-ptr-conversion"], "fn-ptr-conversion-inline-dispatch": ["needs-fn-ptr-conversion"]}
EVMRS_PERFORMANCE = ["unsafe-stack", "custom-evmc", "hash-cache", "code-analysis-cache", "alloc-reuse", "jumptable-dispatch",
                     "fn-ptr-conversion-expanded-dispatch"]


def evmrs_lib(tmp, features=()):
    """libevmrs.so, built from the sources of the working tree with stand-ins for the crates that are absent."""
    d = os.path.join(tmp, "evmrs-" + hashlib.sha256(",".join(features).encode()).hexdigest()[:12])
    shim = d + "/shim"
    shutil.copytree(ROOT + "/shim/rust", shim)
    dep = lambda name, crate, more="": '%s = { path = "%s/%s"%s }\n' % (name, shim, crate, more)
    with open(d + "/Cargo.toml", "w") as h:
        h.write('[package]\nname = "evmrs"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                '[profile.release]\ncodegen-units = 8\ndebug-assertions = %s\n[features]\ndefault = []\n' % ("true" if features else "false"))
        for f in EVMRS_FEATURES:
            h.write("%s = %s\n" % (f, json.dumps(EVMRS_IMPLIES.get(f, []))))
        h.write('[lib]\npath = "%s/rust/src/lib.rs"\ncrate-type = ["cdylib"]\n[dependencies]\n' % os.path.realpath(REPO))
        for c in ("bnum", "ethnum", "sha3", "llvm-profile-wrappers"):
            h.write(dep(c, c))
        h.write(dep("lru", "lru", ", optional = true") + dep("evmc-vm-tosca", "evmc-vm", ', package = "evmc-vm"'))
        h.write(dep("evmc-vm-tosca-refactor", "evmc-vm-opt", ', package = "evmc-vm-opt", optional = true'))
        h.write('zerocopy = "0.8"\nnohash-hasher = { version = "0.2", optional = true }\n')
    sh(["cargo", "build", "--offline", "--release", "--quiet"] + (["--features", ",".join(features)] if features else []), cwd=d,
       env=dict(os.environ, CARGO_TARGET_DIR=d + "/target", RUSTFLAGS=""))
    return d + "/target/release"


def evmrs_exe(name, pkg, tmp, features=(), **env):
    d = evmrs_lib(tmp, features)
    exe = go(name, pkg, tmp, flags=["-tags", "evmrs"], env=goenv(CGO_CFLAGS="-O2 -I%s/shim/c" % ROOT, CGO_LDFLAGS_ALLOW=".*"))
    exe["env"].update(LD_LIBRARY_PATH=d, VM_NAMES="evmrs", **env)
    return exe


def build_vmr(tmp):
    """The interpreter harness on evmrs."""
    return evmrs_exe("vmr", "./cmd/vm", tmp)


def build_vmrp(tmp):
    """The interpreter harness on evmrs with its performance features."""
    return evmrs_exe("vmrp", "./cmd/vm", tmp, EVMRS_PERFORMANCE)


def build_vmri(tmp):
    """The interpreter harness on evmrs with its other way to dispatch instructions and caches per thread."""
    return evmrs_exe("vmri", "./cmd/vm", tmp, ["unsafe-stack", "hash-cache", "code-analysis-cache", "thread-local-cache",
                                                "fn-ptr-conversion-inline-dispatch"])


def build_vmrj(tmp):
    """The interpreter harness on evmrs with a plain jump table."""
    return evmrs_exe("vmrj", "./cmd/vm", tmp, ["jumptable-dispatch", "alloc-reuse"])


def build_vml(tmp):
    """The interpreter harness on lfvm."""
    exe = go("vml", "./cmd/vm", tmp)
    exe["env"].update(VM_NAMES="lfvm,lfvm-si")
    return exe


def build_vmlr(tmp):
    """The same with the race detector."""
    exe = go("vmlr", "./cmd/vm", tmp, flags=["-race"])
    exe["env"].update(VM_NAMES="lfvm,lfvm-si", GORACE="halt_on_error=1 exitcode=66")
    return exe


def build_drvr(tmp):
    return build_drv(tmp, True)


def build_drv(tmp, race=False):
    """The conformance testing tool, with an implementation to test that deviates as told, and its harness."""
    if race:
        tmp = os.path.join(tmp, "drvr.d")
        os.makedirs(tmp)
    mod = gomod(tmp) + "/toscamod/go"
    over = {}

    def stub(pkg, text):
        d = os.path.join(mod, pkg)
        files = sorted(f for f in os.listdir(d) if f.endswith(".go") and not f.endswith("_test.go"))
        for f in files:
            over[os.path.join(d, f)] = ""
        with open(os.path.join(tmp, "stub_%s.go" % pkg.replace("/", "_")), "w") as h:
            h.write(text)
        over[os.path.join(d, files[0])] = h.name

    text = open(ROOT + "/go/cttool/stub.go.txt").read()
    for pkg in ("geth", "evmrs", "evmzero"):
        stub("interpreter/" + pkg, text.replace("PKG", pkg))
    stub("lib/cpp", "package cpp\n\nfunc DumpCppCoverageData() {}\n")
    stub("lib/rust", "package rust\n\nfunc DumpRustCoverageData(string) {}\n")
    over[os.path.join(mod, "ct/driver/zz_verif.go")] = ROOT + "/go/cttool/main.go.txt"
    with open(os.path.join(tmp, "overlay.json"), "w") as h:
        json.dump({"Replace": over}, h)
    tool = go("ctdriver", "github.com/Fantom-foundation/Tosca/go/ct/driver", tmp, flags=["-overlay", h.name] + (["-race"] if race else []))
    exe = go("drv", "./cmd/drv", tmp)
    exe["env"]["CT_DRIVER"] = tool["cmd"][0]
    return exe


def build_flo(tmp):
    """The transaction processor harness (floria, lfvm)."""
    return go("flo", "./cmd/fl", tmp)


def build_floz(tmp):
    """The same with evmzero."""
    d = evmzero_lib(tmp)
    exe = go("floz", "./cmd/fl", tmp, flags=["-tags", "evmzero"],
             env=goenv(CGO_CFLAGS="-O2 -I%s/shim/c" % ROOT, CGO_LDFLAGS="-L%s -Wl,-rpath,%s" % (d, d), CGO_LDFLAGS_ALLOW=".*"))
    exe["env"].update(LD_LIBRARY_PATH=d, VM_NAMES="evmzero")
    return exe


def build_ctl(tmp):
    """The conformance-testing harness (lfvm, specification, containers)."""
    return go("ctl", "./cmd/ct", tmp)


def build_ctlr(tmp):
    """The same with the race detector."""
    exe = go("ctlr", "./cmd/ct", tmp, flags=["-race"])
    exe["env"].update(GORACE="halt_on_error=1 exitcode=66")
    return exe


def build_ctz(tmp):
    """The same with evmzero."""
    d = evmzero_lib(tmp)
    exe = go("ctz", "./cmd/ct", tmp, flags=["-tags", "evmzero"],
             env=goenv(CGO_CFLAGS="-O2 -I%s/shim/c" % ROOT, CGO_LDFLAGS="-L%s -Wl,-rpath,%s" % (d, d), CGO_LDFLAGS_ALLOW=".*"))
    exe["env"].update(LD_LIBRARY_PATH=d, CT_TARGET="evmzero")
    return exe


def build_ctr(tmp):
    """The conformance testing harness on evmrs."""
    return evmrs_exe("ctr", "./cmd/ct", tmp, CT_TARGET="evmrs")


def build_flor(tmp):
    """The transaction processor harness on evmrs."""
    return evmrs_exe("flor", "./cmd/fl", tmp)


BUILDERS = {n[6:]: f for n, f in list(globals().items()) if n.startswith("build_")}


def build(name, tmp):
    return BUILDERS[name](tmp)
