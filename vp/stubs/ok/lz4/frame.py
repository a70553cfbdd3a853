import builtins
import io
import zlib

MAGIC = b"\x04\x22\x4d\x18"


def compress(data, *a, **k):
    return MAGIC + zlib.compress(data)


def decompress(data, *a, **k):
    if bytes(data[:4]) != MAGIC:
        raise RuntimeError("LZ4F_decompress failed: frame type unknown")
    try:
        return zlib.decompress(data[4:])
    except zlib.error as e:
        raise RuntimeError("LZ4F_decompress failed: %s" % e)


class LZ4FrameFile(io.BufferedIOBase):
    def __init__(self, filename=None, mode="rb", *a, **k):
        if mode not in ("r", "rb"):
            raise ValueError("stand-in is read-only")
        self._own = not hasattr(filename, "read")
        self._fp = builtins.open(filename, "rb") if self._own else filename
        self._buf = None

    def _b(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if self._buf is None:
            self._buf = io.BytesIO(decompress(self._fp.read()))
        return self._buf

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, size=-1):
        return self._b().read(size)

    def read1(self, size=-1):
        return self._b().read1(size)

    def readall(self):
        return self._b().read()

    def readline(self, size=-1):
        return self._b().readline(size)

    def peek(self, size=-1):
        b = self._b()
        return b.getvalue()[b.tell():b.tell() + max(size, 1)]

    def seek(self, off, whence=0):
        return self._b().seek(off, whence)

    def tell(self):
        return self._b().tell()

    def close(self):
        if not self.closed:
            if self._own:
                self._fp.close()
            super().close()


def open(filename, mode="rb", encoding=None, errors=None, newline=None, *a, **k):
    f = LZ4FrameFile(filename, mode.replace("t", ""))
    return io.TextIOWrapper(f, encoding, errors, newline) if "t" in mode else f
