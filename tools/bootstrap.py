"""Unpack Hypothesis from the offline wheelhouse into /verif/.deps (git-ignored) if it is not there."""
import glob, os, shutil, sys, tempfile, zipfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
deps = os.path.join(here, ".deps")
if not os.path.exists(os.path.join(deps, "hypothesis", "__init__.py")):
    tag = "cp%d%d" % sys.version_info[:2]
    W = "/opt/veriftools/wheels/"
    wheels = sorted(glob.glob(W + "hypothesis-*-%s-*.whl" % tag))[-1:] + \
        sorted(glob.glob(W + "sortedcontainers-*.whl"))[-1:] + sorted(glob.glob(W + "attrs-*.whl"))[-1:]
    if not wheels or "hypothesis-" not in wheels[0]:
        sys.exit("bootstrap: no hypothesis wheel for %s in %s" % (tag, W))
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=here)
    for w in wheels:
        zipfile.ZipFile(w).extractall(tmp)
    try:
        os.rename(tmp, deps)
    except OSError:  # another run was faster
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.exists(os.path.join(deps, "hypothesis", "__init__.py")):
            raise
