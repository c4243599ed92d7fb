"""The target the repository is compiled for in this run."""
import os

NAME = os.environ.get("DCP_TARGET", "x86_64")
TRIPLE, BITS, SETS = {
    "x86_64": (None, 64, ("x86", "sse2", "avx2")),
    "i686": ("i686-unknown-linux-gnu", 32, ("x86", "sse2", "avx2")),
    "aarch64": ("aarch64-unknown-linux-gnu", 64, ("neon",)),
}[NAME]
USIZE = (1 << BITS) - 1         # largest usize
ISIZE = (1 << (BITS - 1)) - 1   # largest length in bytes
PTR = BITS // 8
