"""C14: converting adjacency data to a file and back returns the same data."""
from props import roundtrip


def run(ctx, rep):
    roundtrip.check(ctx, rep, "adj".split(","))
