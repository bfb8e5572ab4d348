"""C11: prover and verifier follow one Fiat-Shamir schedule."""
from dom import *
from aeval import *
import circuits, full, prover as PR
LEVEL = "bounded"
TECHNIQUE = "abstract interpretation of prover and verifier with a recording transcript, symbolic traces and challenges and an opaque commitment scheme; event sequences compared with each other and with the order soundness needs"
RULE = ("StarkSetup::new, StarkProof::stark_gen and stark_verify are interpreted on small circuits with symbolic cells and one symbol per draw; the sequence of absorbed values and draws of prover and of verifier is exactly: "
    "publics, root1, u, defVal, root2, gamma, beta, root3, vc, root4, xi, every opened value, vf1, vf2, per folding layer its challenge and then the next layer's root (at the end the last polynomial), the query positions; the absorbed values are those of the returned proof")
ASSUME = ["equality of the absorbed rational expressions is decided on their normal form at a random point (error below 2^-50)", "a circuit is one of the listed shapes; Merkle trees and permutations are opaque (C04 to C08)"]
LOC = "starky/src/stark_gen.rs StarkProof::stark_gen"
VER = "starky/src/stark_verify.rs stark_verify"
def job(ctx, name):
    inst = next(i for i in circuits.instances() if i.name == name)
    S = [None]
    def make():
        try:
            S[0] = full.Full(ctx, inst); S[0].setup(); S[0].prove(); S[0].verify()
        except (PR.Bad, Panic) as e: S[0] = None; raise Undecided("no proof (C34): %s" % e)
        return None
    ctx.ob(LOC, name + ": proof", make)
    if S[0] is None: return
    ctx.ob(LOC, name + ": prover's schedule", lambda: S[0].deviation(S[0].pev))
    ctx.ob(VER, name + ": verifier's schedule", lambda: S[0].deviation(S[0].vev))
def run(ctx):
    ctx.parallel(job, [i.name for i in circuits.instances() if ctx.tier != "quick" or not i.slow])
