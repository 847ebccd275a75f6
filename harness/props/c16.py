"""C16 list"""
from props import authoritylib

LEVEL = "model_checking"


def run(ctx):
    authoritylib.run(ctx, "list")


def replay(ctx, case):
    authoritylib.replay(ctx, case)
