import ext
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR over symbolic field elements, compared with a specification normal form"
RULE = ("Every operation of the cubic extension is evaluated over symbolic coefficients (abstract interpretation of its MIR with polynomial normal forms, every combination of base "
        "and extension operands) and its result compared, as a polynomial identity, with arithmetic in GF(p)[x]/(x^3-x-1).")
ASSUME = ["the 64-bit base field is exact (decided by C01)", "exponents of exp are fixed representatives; its operand is symbolic"]
def run(ctx):
    ext.run(ctx, "starky::f3g::F3G", 3, {1: 1, 0: 1}, "starky/src/f3g.rs")
