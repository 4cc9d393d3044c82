"""propagate_keplerian (element based) is the Keplerian flow."""
import dag, oracles as O
from prop import *
import families as F
import C05
from C05 import RV

def cases(tier):
    fams = [F.orbit_el(False, emax=0.9), F.orbit_el(True)]
    return [Case("keplerian", "h_prop_kep", RV + ["tof", "mu"], 6, fams, C05.flow_spec(), C05.oracle, timeout=100, prune=True)]

def run(R):
    R.setup(build.paths("core", ["h_core.cpp"]), "core")
    R.run(cases(R.tier))
