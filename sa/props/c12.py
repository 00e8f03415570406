"""C12: converting skeletons to a file and back returns the same data."""
from props import roundtrip


def run(ctx, rep):
    roundtrip.check(ctx, rep, "skel".split(","))
