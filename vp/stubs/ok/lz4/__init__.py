"""Stand-in for the lz4 package: the frame magic number followed by a zlib stream."""
from . import frame
