"""The files and archives that office documents are unpacked to, in memory."""
import os.path
import tempfile
import zipfile


FILES = {}
FOLDERS = set()
# what was done since the last reset, and the end of the path that cannot be opened in some mode
TOUCHED = []
FAULT = []


class Archive(object):
    """the bytes of a zip file"""
    def __init__(self, parts):
        self.parts = parts


def reset():
    FILES.clear()
    FOLDERS.clear()
    del TOUCHED[:]
    del FAULT[:]
    FOLDERS.add(tempfile.gettempdir())


def touch(path, mode=""):
    """-> the path, which an operation is about to use"""
    path = os.path.normpath(path)
    TOUCHED.append(path)
    for end, how in FAULT:
        if mode != "" and how in mode and path.endswith(end):
            raise OSError(28, "No space left on device", path)
    return path


class Scratch(object):
    """the folder for temporary files, watched"""
    def __enter__(self):
        reset()
        return self

    def __exit__(self, *a):
        return False

    def fail(self, end, mode):
        FAULT.append((end, mode))

    def touched(self):
        """the paths of the files that were used, from the folder for temporary files"""
        root = tempfile.gettempdir() + "/"
        return [path[len(root):] if path.startswith(root) else path for path in TOUCHED]

    def left(self):
        root = tempfile.gettempdir() + "/"
        return sorted([path[len(root):] for path in list(FILES) + list(FOLDERS) if path.startswith(root)])


class File(object):
    def __init__(self, path, mode="r", *a, **k):
        path = touch(path, mode)
        self.path = path
        self.mode = mode
        if "r" in mode and path not in FILES:
            raise FileNotFoundError(path)
        if "w" in mode:
            if os.path.dirname(path) not in FOLDERS:
                raise FileNotFoundError(path)
            FILES[path] = b"" if "b" in mode else ""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self):
        return FILES[self.path]

    def write(self, data):
        old = FILES[self.path]
        FILES[self.path] = data if len_of(old) == 0 else old + data


def len_of(x):
    return 1 if isinstance(x, Archive) else len(x)


def mkdir(path, *a, **k):
    path = touch(path)
    FOLDERS.add(path)


def exists(path):
    path = os.path.normpath(path)
    return path in FILES or path in FOLDERS


def remove(path):
    path = touch(path)
    if path not in FILES:
        raise FileNotFoundError(path)
    del FILES[path]


def rmtree(path, *a, **k):
    path = touch(path)
    for p in list(FILES):
        if p.startswith(path + "/"):
            del FILES[p]
    for p in list(FOLDERS):
        if p == path or p.startswith(path + "/"):
            FOLDERS.discard(p)


class Zip(object):
    def __init__(self, path, mode="r", compression=None, *a, **k):
        path = touch(path, mode)
        self.path = path
        self.mode = mode
        self.parts = []
        if mode == "r":
            if not isinstance(FILES[path], Archive):
                raise zipfile.BadZipFile("File is not a zip file")
            self.parts = FILES[path].parts

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        if self.mode == "w":
            FILES[self.path] = Archive(self.parts)

    def namelist(self):
        return [name for name, data in self.parts]

    def read(self, name):
        for n, data in self.parts:
            if n == name:
                return data
        raise KeyError(name)

    def extractall(self, folder):
        for name, data in self.parts:
            path = touch(folder + "/" + "/".join([x for x in name.split("/") if x not in ("", ".", "..")]), "w")
            if path in FOLDERS:
                raise IsADirectoryError(21, "Is a directory", path)
            at = os.path.dirname(path)
            if at in FILES:
                raise NotADirectoryError(20, "Not a directory", path)
            FILES[path] = data
            while at not in FOLDERS:
                FOLDERS.add(at)
                at = os.path.dirname(at)

    def write(self, path, name=None):
        path = touch(path, "r")
        if path not in FILES:
            raise FileNotFoundError(path)
        self.parts.append((name if name is not None else path, FILES[path]))


class Buffer(object):
    """io.BytesIO"""
    def __init__(self, data=b""):
        self.data = data

    def getvalue(self):
        return self.data

    def read(self):
        return self.data

    def seek(self, *a):
        return 0

    def close(self):
        pass


class Package(dict):
    """the mapping of the names of the files of a zip container to their contents"""
    def __init__(self, source):
        dict.__init__(self)
        for name, text in source.data.parts:
            self[name] = text.encode("utf-8")

    def save(self, target):
        target.data = Archive([(name, data.decode("utf-8")) for name, data in self.items()])
