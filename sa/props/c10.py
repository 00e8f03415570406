"""C10: converting helper bones and model assignments to a file and back returns the same data."""
from props import roundtrip


def run(ctx, rep):
    roundtrip.check(ctx, rep, "hlpb,modl".split(","))
