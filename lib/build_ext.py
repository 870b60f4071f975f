"""Builds /repo's extensions in place, as /opt/vp/quspin/build_ext.py does, but reads the ccache without writing to it.

numpy.distutils does not exist on Python 3.12, so this runs the configuration() functions of the repository's
own setup.py files against a small Configuration class and hands the extensions they declare to setuptools.
setup.py's own `configuration` is used from the top down; only the numpy.distutils part is replaced.

Staleness goes by content, not by mtime: before building, every input whose content differs from what was
recorded gets a new mtime, and every one whose content is the same gets its recorded mtime back. The headers each
extension depends on are all those of the repository that its object really includes (gcc -MM)."""
import glob
import hashlib
import importlib.util
import json
import os
import shlex
import subprocess
import sys
import time
import types

REPO = "/repo"
BUILD = os.path.join(REPO, "build")
MANIFEST = os.path.join(BUILD, "inputs.json")
os.chdir(REPO)
os.makedirs(BUILD, exist_ok=True)
sys.path.insert(0, REPO)


def inputs():
    for root, dirs, files in os.walk(os.path.join(REPO, "quspin")):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for f in files:
            if f.endswith((".pyx", ".pxd", ".pxi", ".h", ".hpp")):
                yield os.path.join(root, f)


def normalise():
    try:
        old = json.load(open(MANIFEST))
    except (OSError, ValueError):
        old = {}
    now, new = time.time_ns(), {}
    for path in inputs():
        digest = hashlib.sha256(open(path, "rb").read()).hexdigest()
        was = old.get(path)
        mtime = was[1] if was and was[0] == digest else now
        if os.stat(path).st_mtime_ns != mtime:
            os.utime(path, ns=(mtime, mtime))
        new[path] = [digest, mtime]
    with open(MANIFEST + ".new", "w") as f:
        json.dump(new, f)
    os.replace(MANIFEST + ".new", MANIFEST)


real_check_call = subprocess.check_call


def check_call(*args, **kw):
    """The setup.py files generate headers this way: keep the old mtime if the content is the same."""
    result = real_check_call(*args, **kw)
    normalise()
    return result


extensions = []


class Configuration:
    def __init__(self, package_name=None, parent_name=None, top_path=None, package_path=None, **kw):
        self.name = ".".join(x for x in (parent_name, package_name) if x)
        self.path = os.path.dirname(os.path.abspath(sys._getframe(1).f_code.co_filename))

    def set_options(self, **kw):
        pass

    def add_subpackage(self, name, **kw):
        setup_py = os.path.join(self.path, name, "setup.py")
        if not os.path.exists(setup_py):
            return
        spec = importlib.util.spec_from_file_location(self.name.replace(".", "_") + "_" + name + "_setup", setup_py)
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        module.configuration(self.name, "")

    def add_data_files(self, *args):
        pass

    add_data_dir = add_data_files

    def add_extension(self, name, sources, **kw):
        from setuptools import Extension

        sources = [sources] if isinstance(sources, str) else list(sources)
        sources = [os.path.relpath(s, REPO) for s in sources]
        kw["include_dirs"] = [d for d in kw.get("include_dirs", []) if os.path.isdir(d)]
        import numpy

        if numpy.get_include() not in kw["include_dirs"]:  # numpy.distutils adds it to every extension
            kw["include_dirs"].append(numpy.get_include())
        kw["depends"] = sorted(set(kw.get("depends") or []))
        for d in kw["depends"]:
            if not os.path.exists(d):
                raise SystemExit(f"{self.name}.{name}: {d} is missing")
        extensions.append(Extension(f"{self.name}.{name}", sources=sources, **kw))


def headers(ext):
    """The repository's headers that the extension includes, from gcc's own account of it."""
    import sysconfig

    found = set(ext.depends)
    for source in ext.sources:
        cmd = ["g++", "-MM", "-I", sysconfig.get_paths()["include"]]
        for d in ext.include_dirs:
            cmd += ["-I", d]
        cmd += [a for a in ext.extra_compile_args if a.startswith("-std")] + [source]
        text = subprocess.run(cmd, check=True, stdout=subprocess.PIPE, text=True).stdout
        for path in shlex.split(text.replace("\\\n", " ").split(":", 1)[1]):
            path = os.path.abspath(path)
            if path.startswith(REPO + os.sep):
                found.add(path)
    return sorted(found)


def main():
    import setuptools  # provides distutils on Python 3.12
    from concurrent.futures import ThreadPoolExecutor

    stub = types.ModuleType("numpy.distutils")
    stub.misc_util = types.ModuleType("numpy.distutils.misc_util")
    stub.misc_util.Configuration = Configuration
    sys.modules["numpy.distutils"] = stub
    sys.modules["numpy.distutils.misc_util"] = stub.misc_util

    normalise()
    # -O2 -g, python's own default, takes 12 minutes on 8 cores; -O1 -g0 takes 5.
    os.environ["CFLAGS"] = "-O1 -g0"
    os.environ["CC"] = "ccache x86_64-linux-gnu-gcc"
    os.environ["CXX"] = "ccache x86_64-linux-gnu-g++"
    os.environ["CCACHE_DIR"] = "/opt/vp/ccache"
    os.environ["CCACHE_MAXSIZE"] = "3G"
    os.environ["CCACHE_TEMPDIR"] = os.path.join(BUILD, "ccache_tmp")
    os.environ["CCACHE_READONLY"] = "1"
    os.environ["CCACHE_NOSTATS"] = "1"
    os.environ["CCACHE_NOINODECACHE"] = "1"
    os.makedirs(os.environ["CCACHE_TEMPDIR"], exist_ok=True)
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    subprocess.check_call = check_call
    import Cython.Build

    real_cythonize = Cython.Build.cythonize
    jobs = os.cpu_count() or 1
    Cython.Build.cythonize = lambda *a, **kw: real_cythonize(*a, **{"nthreads": jobs, "language_level": 2, **kw})
    spec = importlib.util.spec_from_file_location("quspin_top_setup", os.path.join(REPO, "setup.py"))
    top = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(top)
    top.configuration(top_path="")

    with ThreadPoolExecutor(jobs) as pool:
        for ext, deps in zip(extensions, pool.map(headers, extensions)):
            ext.depends = deps
    # An extension or .cpp whose source is gone must not be picked up again.
    wanted = {os.path.join(REPO, *e.name.split(".")) for e in extensions}
    for so in glob.glob(os.path.join(REPO, "quspin", "**", "*.so"), recursive=True):
        if so.split(".", 1)[0] not in wanted:
            os.remove(so)
    # The slowest to compile go first: the instantiations in _basis_general_core, then those in _basis_1d_core.
    extensions.sort(key=lambda e: ("general_core." not in e.name or "utils" in e.name, "_ops" not in e.name, e.name))
    setuptools.setup(
        name="quspin",
        ext_modules=extensions,
        packages=[],
        script_name="setup.py",
        script_args=["-q", "build_ext", "--inplace", f"-j{min(jobs, len(extensions))}"],
    )
    missing = [w for w in wanted if not glob.glob(w + ".*.so")]
    if missing:
        raise SystemExit(f"not built: {missing}")


if __name__ == "__main__":
    main()
