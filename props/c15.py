from sim import fitcase
from . import fitlike

ID = 'C15'


def case(r, i, tier):
    return fitcase.base_case(r)


def judge(case, ctx):
    return fitlike.judge_fit(case, ctx, ('continua',))
