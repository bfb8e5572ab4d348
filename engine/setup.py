"""setup: builds the MIR driver and dumps the current tree once (later runs reuse the compiled driver and dependencies)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
print(core.dump())
for feature in core.FEATURES: print(core.dump(feature, core.simd_env(feature)))
