"""Build the intermediate representation the rules run on from /repo's current working tree (nothing is executed)."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("RA_REPO", "/repo")
TOOL = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tool")
FLAGS = ["-std=c17", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes", "-fsigned-char", "-march=native",
         '-DGIT_HASH="x"', "-DNDEBUG", "-include", "core/def.h", "-w", "-emit-llvm", "-c"]

class Broken(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tool(name):
    for n in (name + "-18", name):
        p = shutil.which(n)
        if p:
            return p
    raise Broken("missing tool " + name)

def build_tool():
    r = sh(["make", "-j4", "-s"], cwd=TOOL)
    if r.returncode:
        raise Broken("building the analyser failed:\n" + r.stdout[-3000:])

def sources():
    r = subprocess.run(["make", "-pn", "-f", "Makefile"], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    objs = []
    for line in r.stdout.splitlines():
        m = re.match(r"^(CORE_OBJECTS|APP_OBJECTS)\s*:?=\s*(.*)$", line)
        if m:
            objs += m.group(2).split()
    src = [o[:-2] + ".c" for o in objs if o.endswith(".o")]
    src += sorted("app/" + f for f in os.listdir(os.path.join(REPO, "app")) if f.endswith(".c"))
    src = [s for s in dict.fromkeys(src) if os.path.exists(os.path.join(REPO, s))]
    if len(src) < 40:
        raise Broken("source list of the build not found (%d files)" % len(src))
    return src

def build_ir(tmp):
    clang = tool("clang")
    src = sources()
    def one(s):
        out = os.path.join(tmp, s.replace("/", "_") + ".bc")
        r = sh([clang] + FLAGS + [s, "-o", out], cwd=REPO)
        return s, out, r
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, src))
    bad = [(s, r.stdout) for s, o, r in res if r.returncode]
    if bad:
        raise Broken("does not compile: " + bad[0][0] + "\n" + bad[0][1][-2000:])
    allbc = os.path.join(tmp, "all.bc")
    r = sh([tool("llvm-link")] + [o for _, o, _ in res] + ["-o", allbc])
    if r.returncode:
        raise Broken("link failed: " + r.stdout[-2000:])
    m2r = os.path.join(tmp, "all.m2r.bc")
    r = sh([tool("opt"), "-passes=mem2reg", allbc, "-o", m2r])
    if r.returncode:
        raise Broken("opt failed: " + r.stdout[-2000:])
    return m2r, src
