"""known_findings.json: the defects of the pinned commit that were repaired (nothing is suppressed)."""
import json, os
FIXED = """C01 919a9aa update_interaction introducing a new attribute left the other rows without that column; the add fallback lost attributes
C01 45143e8 the default timestamp of update_interaction was taken once, when the module was imported
C06 08e7263 fix_variable brought removed interactions back into the energy
C07 d44d1a0 delete_variable failed for equality constraints and for variables that are in no constraint
C05 3b04203 to_ising and to_qubo ignored the scale of the interactions
C08 e24d878 a refused merge had already changed the receiving model
C03 51a582c to_physical dropped removed rows by a stale index and damaged surviving rows
C13 7283b1c seed 0 was treated as no seed
C13 084bdf1 solve changed the caller's initial states in place
C14 9336484 empty reverse options were accepted silently
C12 5e64412 the recorded energies lacked the model's offset
C19 93111cb enumerate_all of no numbers crashed
C17 860d4e2 the message on an outdated window named the wrong timestamp
C17 c9cf563 the first window of a stream could be taken for outdated
C16 4ef866f an element of the previous window that is gone was not reported as outgoing when its time lay inside the new window
C23 6e2093b from_pyqubo negated the coefficients of the caller's PyQUBO model in place
C08 72fd516 repeated merges gave two interactions the same name
C17 ad3eda9 an attenuation step whose model has no live interaction raised and broke the stream"""
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {"findings": [], "fixed": []}
for l in FIXED.splitlines():
    p, c, w = l.split(" ", 2)
    out["fixed"].append(f"fixed: property={p} {c} {w}")
json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
