"""A heapy session to run checks in, with small private roots."""
import sys, io, gc, contextlib
import guppy
hp = guppy.hpy()
V = hp.View
TAG = V._hiding_tag_
imm = V.immnodeset
mut = V.mutnodeset


@contextlib.contextmanager
def captured():
    old = sys.stdout
    sys.stdout = f = io.StringIO()
    try:
        yield f
    finally:
        sys.stdout = old


def bits(m):
    i = 0
    while m:
        if m & 1:
            yield i
        m >>= 1
        i += 1
