"""C11: converting materials to a file and back returns the same data."""
from props import roundtrip


def run(ctx, rep):
    roundtrip.check(ctx, rep, "matl".split(","))
