"""Another process at the worst moment: it makes each file of a folder just before the code does."""
import os
import sys

_active = []
_hooked = []


def _hook(event, args):
    if not _active or event not in ('open', 'os.rename', 'os.link'):
        return
    if event == 'open':
        path, _, flags = args
        if not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            return
    else:
        path = args[1]
    if not isinstance(path, (str, bytes, os.PathLike)):
        return
    path = os.path.abspath(os.fsdecode(path))
    rivals, _active[:] = list(_active), []
    try:
        for r in rivals:
            r.meet(path)
    finally:
        _active[:] = rivals


class Rival:
    """While active, makes the first few files that the code is about to make in the folder, under the same names."""

    def __init__(self, folder, suffix, times):
        self.folder, self.suffix, self.times, self.made = os.path.abspath(folder), suffix, times, {}

    def __enter__(self):
        if not _hooked:
            _hooked.append(True)
            sys.addaudithook(_hook)
        _active.append(self)
        return self

    def __exit__(self, *args):
        _active.remove(self)

    def meet(self, path):
        if self.times and os.path.dirname(path) == self.folder and path.endswith(self.suffix) and not os.path.lexists(path):
            self.times -= 1
            self.made[path] = 'made by another run, {} to go'.format(self.times).encode()
            with open(path, 'wb') as fp:
                fp.write(self.made[path])

    def intact(self):
        """The first of its files that was changed, or None."""
        for path, text in self.made.items():
            if not os.path.exists(path):
                return path
            with open(path, 'rb') as fp:
                if fp.read() != text:
                    return path
        return None
