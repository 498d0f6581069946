#!/usr/bin/env python3
"""Write known_findings.json (run by hand; never by a check)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("P14", "3974712", "crystal-field Hamiltonian was not exactly Hermitian (rounding), so that the Hermiticity assertion/check could fail"),
 ("P22", "eed4199", "getRIXSmap shared one operator cache between different out-going operators: all but the first out-going polarization used results of the first"),
 ("P21", "bc74417", "getNIXSOperator took the wrong azimuthal angle (arctan instead of arctan2, NaN for q along z)"),
 ("P17", "731119a", "printThermalExpValues ignored the requested temperature"),
 ("P24", "d4e132c", "allgather_dict used np.int, removed in NumPy, and always raised"),
 ("P27", "65042e2", "plotSpectra without filename argument failed instead of using the default"),
 ("P18", "ec462ab", "the Lanczos recursion divided by zero and produced NaN or noise when the Krylov space was exhausted"),
 ("P11", "7112674", "asking the iterative eigensolver for as many states as a small basis holds failed"),
 ("P11", "011d40d", "states of degenerate eigenvalues were returned non-orthogonal"),
 ("P27", "b9d84cf", "plotting RIXS maps failed unless the number of polarizations was exactly the expected one"),
 ("P07", "ab2c3ba", "i2c(nBaths, negative index) returned a bath state instead of rejecting the index"),
 ("P08", "ed91eef", "get_basis accepted moving more electrons out of the valence bath than it holds and created electrons from nowhere"),
 ("P27", "c2b04a3", "plotting RIXS maps failed when a map (of one polarization combination, or all) holds no intensity above the plot cutoff"),
 ("P26", "6b3b27d", "drivers silently ignored surplus values of --n0imps, --dnTols, --dnValBaths and --dnConBaths (length different from --ls)"),
]
F.append(("P19", "b44fbb4", "getSpectra divided by zero for a transition that is forbidden by destructive interference when the cutoff is zero (getRIXSmap gave NaN in the same way)"))
out = []
for p, c, w in F:
    out.append({"property": p, "id": c, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, w)})
out.append({"property": "P11", "id": "lanczos-degenerate", "status": "open",
  "what": "eigensystem(groundDiagMode='Lanczos') misses copies of degenerate eigenvalues: NiO crystal-field Hamiltonian (h0_NiO_CF.json, hField=0, basis of 145 product states), nPsiMax=5, returns 2 of the 3 ground states"})
json.dump({"findings": out}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
