"""C34: honest proofs are accepted, dishonest traces are not."""
from dom import *
from aeval import *
import circuits, full, prover as PR
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of setup, prover and verifier on small circuits with symbolic traces and challenges; the acceptance condition is decided as a rational identity"
RULE = ("StarkSetup::new, StarkProof::stark_gen and stark_verify are interpreted on circuits of every kind of constraint with cells and challenges as symbols: on a trace that satisfies the constraints the prover returns a proof and the verifier's "
    "acceptance condition holds identically; on a trace with one cell replaced by a free symbol it does not")
ASSUME = ["identities of rational expressions are decided on their normal form at a random point (error below 2^-50)", "a circuit is one of the listed shapes with four rows; Merkle trees and permutations are opaque (C04 to C08)"]
LOC = "starky/src/stark_gen.rs StarkProof::stark_gen"
def attempt(ctx, inst, cell=None):
    S = full.Full(ctx, inst)
    if cell: S.trace[cell[0]][cell[1]] = S.gl.var("tampered")
    S.setup(); S.prove()
    return S.verify()
def honest(ctx, inst):
    try: r = attempt(ctx, inst)
    except PR.Bad as e: return "%s on an honest trace" % e
    except Panic as e: return "an honest trace makes it panic: %s" % e
    if r is True: return None
    if r is False: return "an honest proof is refused"
    raise Undecided("acceptance of an honest proof: %s" % short(r))
def forged(ctx, inst, cell):
    try: r = attempt(ctx, inst, cell)
    except (PR.Bad, Panic): return None
    if r is True: return "a proof for a trace that violates the constraints is accepted"
    if r is False: return None
    raise Undecided("acceptance of a forged trace: %s" % short(r))
def job(ctx, j):
    name, cell = j
    inst = next(i for i in circuits.instances() if i.name == name)
    if cell is None: ctx.ob(LOC, name + ": honest trace", honest, ctx, inst)
    else: ctx.ob("starky/src/stark_verify.rs stark_verify", "%s: column %d, row %d replaced" % (name, cell[0], cell[1]), forged, ctx, inst, cell)
def run(ctx):
    l = [i for i in circuits.instances() if ctx.tier != "quick" or not i.slow]
    ctx.parallel(job, [(i.name, None) for i in l] + [(i.name, c) for i in l for c in i.bad])
