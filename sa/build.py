"""Builds the analysed program: compiles /repo's current C sources to LLVM IR, normalises them
with irx and loads the result.  Nothing of /repo is executed."""
import hashlib, json, os, subprocess, sys, tempfile, shutil, atexit, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
CACHE = os.path.join(VERIF, ".cache")
BUILDER = os.path.join(REPO, "lib/SPVM/Builder")
CFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-eliminate-unused-debug-types",
          "-std=gnu99", "-fno-discard-value-names", "-w", "-D_GNU_SOURCE"]

class AnalysisBroken(Exception):
    """the analysis itself cannot give an answer (vanished anchor, source does not compile, ...)"""

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="sa-")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd)[:400], p.stderr[-4000:]))
    return p.stdout

def irx():
    src = os.path.join(HERE, "tool", "irx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(CACHE, "irx-" + h)
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        flags = [f for f in run([LLVM + "/bin/llvm-config", "--cxxflags"]).split() if f != "-fno-exceptions"]
        t = exe + ".%d" % os.getpid()
        run([LLVM + "/bin/clang++", "-O0", "-fno-rtti"] + flags + [src, "-o", t, "-L" + LLVM + "/lib", "-lLLVM-18"])
        os.rename(t, exe)
    return exe

def compile_bc(sources, incs=(), extra=()):
    """compile each C source to bitcode, in parallel"""
    out = []
    def one(a):
        i, s = a
        o = os.path.join(tmpdir(), "%d_%s.bc" % (i, os.path.basename(s)))
        run([LLVM + "/bin/clang", "-c", "-emit-llvm"] + CFLAGS + list(extra) +
            ["-I" + BUILDER + "/include"] + ["-I" + x for x in incs] + [s, "-o", o])
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, [(abs(hash(s)) % 10**9, s) for s in sources]))

def link(bcs, name):
    o = os.path.join(tmpdir(), name + ".bc")
    run([LLVM + "/bin/llvm-link", "-o", o] + bcs)
    return o

# mem2reg-like normalisation, no inlining beyond what is asked for
PASSES_SSA = "always-inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,gvn,jump-threading,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg<bonus-inst-threshold=0;no-switch-to-lookup;no-switch-range-to-icmp;no-sink-common-insts;no-hoist-common-insts;keep-loops>)"
PASSES_SSA_LIGHT = "always-inline,function(sroa,early-cse<memssa>)"
PASSES_RAW = "always-inline"

def known_file():
    return os.path.join(HERE, "known_functions.txt")

def export(bc, passes, keep=True, inline=None, only=None, tag=""):
    o = bc[:-3] + tag + ".json"
    cmd = [irx(), bc, o, "--passes=" + passes]
    if keep is True: cmd.append("--keep=" + known_file())
    elif keep:
        k = o + ".keep"; open(k, "w").write("\n".join(keep)); cmd.append("--keep=" + k)
    if inline:
        k = o + ".inl"; open(k, "w").write("\n".join(inline)); cmd.append("--inline=" + k)
    if only:
        k = o + ".only"; open(k, "w").write("\n".join(only)); cmd.append("--only=" + k)
    run(cmd)
    from . import ir
    return ir.Program(json.load(open(o)))

def builder_sources():
    s = sorted(glob.glob(BUILDER + "/src/*.c"))
    if len(s) < 40: raise AnalysisBroken("only %d builder sources" % len(s))
    return s
