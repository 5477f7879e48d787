"""Files for the run-time contract checks: everything lives in a scratch folder of its own, deletions outside it are refused."""
import os
import shutil
import tempfile

import numpy as np


class Escape(RuntimeError):
    """The code under test tried to delete or move something outside its scratch folder."""


class Scratch(object):
    """A folder /tmp/x/box/w; os.remove, shutil.rmtree and the like only work below it while it exists."""

    GUARDED = [(os, "remove"), (os, "unlink"), (os, "rmdir"), (os, "rename"), (os, "replace"), (shutil, "rmtree"), (shutil, "move")]

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="vcbox_")
        self.dir = os.path.join(self.root, "box", "w")
        os.makedirs(self.dir)
        self.saved = []
        for m, n in self.GUARDED:
            f = getattr(m, n)
            self.saved.append((m, n, f))
            setattr(m, n, self.guard(f))
        self.depth = 0

    def guard(self, f):
        def g(path, *args, **kw):
            if self.depth == 0 and not isinstance(path, int) and kw.get("dir_fd") is None:
                p = os.path.realpath(os.fspath(path))
                if not p.startswith(os.path.realpath(self.dir) + os.sep) and "joblib_memmapping_folder" not in p:
                    raise Escape("%s of a path outside the working folder: %s" % (f.__name__, path))
            self.depth += 1
            try:
                return f(path, *args, **kw)
            finally:
                self.depth -= 1
        return g

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        for m, n, f in self.saved:
            setattr(m, n, f)
        shutil.rmtree(self.root, ignore_errors=True)

    # ------------------------------------------------------------------------------------------------ contents
    def tree(self):
        """Relative names of everything in the folder with the contents of the files."""
        out = {}
        for d, ds, fs in os.walk(self.dir):
            for n in ds:
                out[os.path.relpath(os.path.join(d, n), self.dir) + "/"] = None
            for n in fs:
                p = os.path.join(d, n)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, self.dir)] = f.read()
        return out


def write_tif(path, mat):
    from PIL import Image
    os.makedirs(os.path.dirname(path), exist_ok=True)
    Image.fromarray(np.ascontiguousarray(mat)).save(path)


def read_tif(path):
    from PIL import Image
    return np.array(Image.open(path))


def write_hdf(path, key, data):
    import h5py
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with h5py.File(path, "a") as f:
        f.create_dataset(key, data=data)


def read_hdf(path, key):
    import h5py
    with h5py.File(path, "r") as f:
        return np.array(f[key])


def read_folder(path):
    """The images of a folder stacked in the order of their names."""
    names = sorted(n for n in os.listdir(path) if os.path.isfile(os.path.join(path, n)))
    return np.asarray([read_tif(os.path.join(path, n)) for n in names]), names
