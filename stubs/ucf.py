"""Stands in for the ucf library, which is not installed here: the mapping of the names of the
files of a zip container to their contents."""
import zipfile


class UCF(dict):
    def __init__(self, source):
        dict.__init__(self)
        with zipfile.ZipFile(source) as z:
            for name in z.namelist():
                self[name] = z.read(name)

    def save(self, target):
        with zipfile.ZipFile(target, "w") as z:
            for name, data in self.items():
                z.writestr(name, data)
