"""Regenerate everything that is checked from /repo's working tree."""
import os
import shutil
import subprocess
import tempfile
from . import ir

REPO = os.environ.get("VERIF_REPO", "/repo")
UNITS = ("chain", "chain_math", "evm_memory", "stdlib", "utils")
FLAGS = ["--target=wasm32", "-Xclang", "-fexperimental-max-bitint-width=256", "-ffreestanding", "-fno-builtin",
         "-Wno-unused-function", "-w", "-ftrapv"]
CLANG = "clang-16"


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout.decode(errors="replace")


def workdir():
    return tempfile.mkdtemp(prefix="verif.")


def emit_ir(work, debug=False):
    out = {}
    procs = []
    for u in UNITS:
        dst = os.path.join(work, u + (".dbg.ll" if debug else ".ll"))
        cmd = [CLANG] + FLAGS + ["-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names"]
        if not debug:
            cmd += ["-DNDEBUG"]
        cmd += ["-I", os.path.join(REPO, "stdlib"), os.path.join(REPO, "stdlib", u + ".c"), "-o", dst]
        procs.append((u, cmd, dst, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for u, cmd, dst, p in procs:
        o = p.communicate()[0]
        if p.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), o.decode(errors="replace")[-3000:]))
        out[u] = dst
    return out


def module(work, debug=False):
    m = ir.Module()
    for u, p in emit_ir(work, debug).items():
        m.merge(ir.parse(open(p).read()), u)
    ir.split_structs(m)
    return m


def exported(m):
    return [n for n, f in m.funcs.items() if "!" not in n]


def emit_wasm(work, names, debug=False):
    """the library as it ships (release: -O2 -DNDEBUG bitcode, linked to wasm); returns the path"""
    bcs = []
    procs = []
    tag = "dbg" if debug else "rel"
    for u in UNITS + (() if debug else ("debug_in_release",)):
        dst = os.path.join(work, "%s.%s.bc" % (u, tag))
        cmd = [CLANG] + FLAGS + (["-g", "-O0"] if debug else ["-O2", "-DNDEBUG"]) + \
            ["-c", "-emit-llvm", "-I", os.path.join(REPO, "stdlib"), os.path.join(REPO, "stdlib", u + ".c"), "-o", dst]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bcs.append(dst)
    for cmd, p in procs:
        o = p.communicate()[0]
        if p.returncode:
            raise BuildError("%s\n%s" % (" ".join(cmd), o.decode(errors="replace")[-3000:]))
    out = os.path.join(work, tag + ".wasm")
    run(["wasm-ld", "--no-entry", "--allow-undefined", "--stack-first", "--global-base=0", "--export=__heap_base",
         "--initial-memory=1048576"] +
        ["--export=" + n for n in names] + bcs + ["-o", out])
    return out


def cleanup(work):
    shutil.rmtree(work, ignore_errors=True)
