from .common import rows_case, result, cover_of


def run(case, wd):
    r, rep = rows_case(case, wd, eqs=("mobile", "dirichlet"))
    return result(rep, r, cover_of(case))
