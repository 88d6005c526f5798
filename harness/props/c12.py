"""C12: the steady ring solution satisfies its boundary condition and loads."""

import props.c11 as c11
from core import facet

PROP = "C12"
WARM = ("mesh", "ring", "horseshoe")


@facet(PROP, "solution", c11.cases, 400, 15000, "at least two panels, loads compared and strengths not all zero")
def solution(spec, ctx):
    c11.run("ring", spec, ctx)
