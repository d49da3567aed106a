import importlib
MODULES = ["photometry", "petro", "utils", "models", "fitting", "segmentation", "correction", "whole", "units", "figures", "reports"]


def registry():
    out = {}
    for m in MODULES:
        mod = importlib.import_module("pfsa.rules." + m)
        out.update(mod.RULES)
    return out


_T = "abstract interpretation of the sources (gated value numbering); normal forms compared with a reference definition"
_N = ("Decided from the source for all inputs of the declared kinds, over real arithmetic; trusts the interpreter's evaluation rules and its "
      "summaries of numpy/scipy/astropy/photutils. Forms it cannot relate are reported as undecided in the evidence, never as violations.")
_L = "abstract interpretation of the sources (gated value numbering); relational laws between two derived values of the same code"
_E = "interprocedural alias and effect analysis on the abstract heap, with idempotence laws over the value graph of every public entry point"
_R = "reference integrity: scope, attribute, arity, unpacking and table-schema analysis of the syntax trees and of every analysed call"
_D = "dimension inference over the interprocedural value graph of every measured quantity"
_O = "dependence analysis from every public parameter to the result, and agreement of forwarded names and documented defaults"
_S = "typestate of the settings: must-raise conditions and stored state after every sequence of assignments, on gated normal forms"
TECH = {"*": (_T, _N), "P09": (_L, _N), "P24": (_L, _N), "P32": (_E, _N), "P33": (_R, _N), "P34": (_D, _N), "P36": (_O, _N), "P23": (_S, _N), "P44": (_L, _N)}
