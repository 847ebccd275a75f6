"""C15 fetch"""
from props import authoritylib

LEVEL = "model_checking"


def run(ctx):
    authoritylib.run(ctx, "fetch")


def replay(ctx, case):
    authoritylib.replay(ctx, case)
