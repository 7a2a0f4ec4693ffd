"""All contracts."""
from .specs import externs, vector, csc, cscutil, matrix, solver, util, auxil, scaling, validate, kkt, linsys, api, polish, solve
from .spec import CONTRACTS, Registry
def registry(prog):
    r = Registry(prog)
    for sp in CONTRACTS.values(): r.add(sp)
    return r
