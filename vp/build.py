"""Stage a private copy of /repo's current sources and build its extensions out of tree.

The staged tree is keyed by the content of every source file, so a check always
exercises the current working tree of /repo and never a stale binary.  Nothing is
written below /repo.
"""

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from pathlib import Path

REPO = Path(os.environ.get("VP_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
CACHE = Path(os.environ.get("VP_BUILD_DIR", VERIF / "build"))

SHIM = VERIF / "vp" / "alloc_shim.h"
SKIP_SUFFIX = {".so", ".pyc", ".o"}


class BuildError(RuntimeError):
    pass


def _sources():
    src = REPO / "src"
    out = []
    for p in sorted(src.rglob("*")):
        if not p.is_file() or p.suffix in SKIP_SUFFIX or "__pycache__" in p.parts:
            continue
        if p.suffix == ".cpp" and p.with_suffix(".pyx").exists():
            continue
        if p.name == "_version.py" or ".egg-info" in str(p):
            continue
        out.append(p)
    return out


def _hash(files, extra):
    h = hashlib.sha256()
    for p in files:
        h.update(str(p.relative_to(REPO)).encode())
        h.update(b"\0")
        h.update(hashlib.sha256(p.read_bytes()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def _py():
    return os.environ.get("VP_PYTHON", "/opt/venv/bin/python")


BUILD_SNIPPET = r"""
import os, sys, numpy as np
from Cython.Build import cythonize
from Cython.Compiler import Options
from setuptools import Extension, setup
Options.docstrings = True
which = sys.argv.pop(1).split(",")
exts = []
if "cas22" in which:
    for n in ("_ramp", "_jump", "_fit"):
        exts.append(Extension("stcal.ramp_fitting.ols_cas22." + n,
                    ["src/stcal/ramp_fitting/ols_cas22/" + n + ".pyx"],
                    include_dirs=[np.get_include()], language="c++"))
if "slope" in which:
    exts.append(Extension("stcal.ramp_fitting.slope_fitter",
                ["src/stcal/ramp_fitting/src/slope_fitter.c"],
                include_dirs=[np.get_include()], define_macros=[("NUMPY", "1")],
                extra_compile_args=["-include", os.environ["VP_ALLOC_SHIM"]]))
setup(name="stage", package_dir={"": "src"}, ext_modules=cythonize(exts, quiet=True))
"""


def _prune(keep=6):
    stages = [p for p in CACHE.glob("stage-*") if p.is_dir()]
    stages.sort(key=lambda p: p.stat().st_mtime)
    for p in stages[:-keep] if len(stages) > keep else []:
        shutil.rmtree(p, ignore_errors=True)


def asan_env():
    """The environment in which an uninstrumented Python can load the sanitized extensions."""
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    return dict(os.environ, LD_PRELOAD=lib, PYTHONMALLOC="malloc",
                ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0:"
                             "max_malloc_fill_size=1048576:malloc_fill_byte=190",
                UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=1")


def stage(native=(), flavour="plain"):
    """Return the path of a `src` directory holding an importable stcal.

    native: subset of {"slope", "cas22"}; flavour: plain | asan | cov
    """
    native = tuple(sorted(native))
    files = _sources()
    if not files:
        raise BuildError("no sources below /repo/src")
    key = _hash(files, (native, flavour, sys.version_info[:3], SHIM.read_text() if native else ""))
    CACHE.mkdir(parents=True, exist_ok=True)
    final = CACHE / f"stage-{key}"
    lockf = open(CACHE / ".lock", "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        if (final / "OK").exists():
            os.utime(final)
            return final / "src"
        _prune()
        work = CACHE / f"work-{key}-{os.getpid()}"
        shutil.rmtree(work, ignore_errors=True)
        (work / "src").mkdir(parents=True)
        for p in files:
            d = work / p.relative_to(REPO)
            d.parent.mkdir(parents=True, exist_ok=True)
            shutil.copyfile(p, d)
        (work / "src/stcal/_version.py").write_text("version = '0.0.staged'\n__version__ = version\n")
        if native:
            (work / "build_stage.py").write_text(BUILD_SNIPPET)
            env = dict(os.environ)
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["VP_ALLOC_SHIM"] = str(SHIM)
            env.pop("LD_PRELOAD", None)
            if flavour == "plain":
                env["CFLAGS"] = "-O1 -g"
            elif flavour == "asan":
                env["CFLAGS"] = (
                    "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow "
                    "-fno-sanitize-recover=undefined -fno-sanitize=alignment"
                )
                env["LDFLAGS"] = "-fsanitize=address,undefined"
            else:
                raise BuildError(flavour)
            r = subprocess.run(
                [_py(), "build_stage.py", ",".join(native), "-q", "build_ext", "--inplace", "--force",
                 "--parallel", "4"],
                cwd=work, env=env, capture_output=True, text=True, timeout=600,
            )
            want = (3 if "cas22" in native else 0) + (1 if "slope" in native else 0)
            got = list((work / "src").rglob("*.so"))
            if r.returncode != 0 or len(got) != want:
                shutil.rmtree(work, ignore_errors=True)
                raise BuildError("extension build failed:\n" + r.stdout[-3000:] + r.stderr[-3000:])
            shutil.rmtree(work / "build", ignore_errors=True)
        (work / "OK").write_text(key)
        shutil.rmtree(final, ignore_errors=True)
        os.rename(work, final)
        return final / "src"
    finally:
        fcntl.flock(lockf, fcntl.LOCK_UN)
        lockf.close()
