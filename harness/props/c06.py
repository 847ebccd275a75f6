"""C06 what is cached is only used for as long as it is valid, and nothing is served that has expired"""
from props import collectlib

LEVEL = "model_checking"
FOCUS = ("outdated", "refetched", "paths", "failed")


def run(ctx):
    ctx.model_check("CacheMC", "CacheQuick.cfg" if ctx.quick else "CacheThorough.cfg")
    rng = ctx.rng
    cases = []
    for _ in range(900 if ctx.quick else 20000):
        lives = rng.choice([(700, 1000, 5000), (100, 599, 600, 601, 1300), (86400, 1000), (3600, 3601)])
        times = rng.choice([(1, 100, 500), (99, 299, 599, 600, 601, 700), (2999, 3000, 3001, 1), (5000, 90000)])
        case = collectlib.random_case(rng, rng.randint(4, 14), lives=lives, times=times)
        if rng.random() < 0.2:
            case["delta"] = rng.choice([0, 1, 60, 300, 3000])
        cases.append(case)
    collectlib.judge(ctx, cases, FOCUS)


def replay(ctx, case):
    collectlib.judge(ctx, [case], FOCUS)
