import ext
LEVEL = "proof"
TECHNIQUE = "abstract interpretation of type-checked MIR over symbolic field elements, compared with a specification normal form"
RULE = ("Every operation of the quintic extension is evaluated over symbolic coefficients (abstract interpretation of its MIR with polynomial normal forms, every combination of base "
        "and extension operands) and its result compared, as a polynomial identity, with arithmetic in GF(p)[x]/(x^5-3).")
ASSUME = ["the 64-bit base field is exact (decided by C01)", "exponents of exp are fixed representatives; its operand is symbolic"]
def run(ctx):
    ext.run(ctx, "starky::f5g::F5G", 5, {0: 3}, "starky/src/f5g.rs")
