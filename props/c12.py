from sim import fitcase
from . import fitlike

ID = 'C12'


def case(r, i, tier):
    ok = dict(num_iterations=r.choice([1, 2, 2, 3, 4, 6]))
    if i % 5 == 0:
        ok['smoothing_scale'] = 0.
    return fitcase.base_case(r, optkw=ok)


def judge(case, ctx):
    return fitlike.judge_fit(case, ctx, ('attributes', 'globals'),
                             post=fitlike.master_only)
