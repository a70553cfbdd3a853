raise ImportError("lz4 is not installed")
