"""Archives of texts: real ones when replaying, in memory while exploring (see models.py)."""
import io
import os
import shutil
import sys
import tempfile
import zipfile


def zipped(parts):
    data = io.BytesIO()
    with zipfile.ZipFile(data, "w") as z:
        for name, text in parts:
            z.writestr(name, text.encode("utf-8"))
    return data.getvalue()


def unzipped(content):
    with zipfile.ZipFile(io.BytesIO(content)) as z:
        return [(name, z.read(name).decode("utf-8")) for name in z.namelist()]


WATCH = []


def watch(event, args):
    if WATCH and event in ("open", "os.mkdir", "os.remove", "shutil.rmtree", "os.rename", "os.rmdir"):
        WATCH[-1].seen(event, args)


class scratch(object):
    """an empty folder for temporary files, deep enough that no path of a harness leaves it, where
    what is done is recorded"""
    hooked = False

    def __enter__(self):
        if not scratch.hooked:
            sys.addaudithook(watch)
            scratch.hooked = True
        self.base = os.path.realpath(tempfile.mkdtemp())
        self.root = os.path.join(self.base, *"abcdefghi")
        os.makedirs(self.root)
        self.old = tempfile.tempdir
        self.paths = []
        self.faults = []
        tempfile.tempdir = self.root
        WATCH.append(self)
        return self

    def __exit__(self, *a):
        WATCH.pop()
        tempfile.tempdir = self.old
        shutil.rmtree(self.base)
        return False

    def seen(self, event, args):
        path = args[0]
        if not isinstance(path, str):
            return
        if not path.startswith("/"):
            # what rmtree does inside of its folder
            return
        path = os.path.normpath(path)
        mode = (args[1] or "r") if event == "open" else "w"
        if not path.startswith(self.base + "/"):
            if "r" in mode and path.startswith(("/dev/", "/usr/", sys.prefix + "/")):
                return
            self.paths.append(path)
            if mode not in ("r", "rb"):
                raise OSError(13, "Not from here", path)
            return
        self.paths.append(path)
        if event == "open":
            for end, mode in self.faults:
                if mode in (args[1] or "") and path.endswith(end):
                    raise OSError(28, "No space left on device", path)

    def fail(self, end, mode):
        self.faults.append((end, mode))

    def touched(self):
        root = self.root + "/"
        return [path[len(root):] if path.startswith(root) else path for path in self.paths]

    def left(self):
        out = []
        for folder, folders, files in os.walk(self.root):
            out += [os.path.relpath(os.path.join(folder, x), self.root) for x in folders + files]
        return sorted(out)
