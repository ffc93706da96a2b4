TECH = {"*": "TLA+ specification (SeqSpec) + TLC trace validation of recorded executions of the real classes"}
NOTES = {"*": "Every recorded call of the real code is checked by TLC to be a step the specification permits; exhaustive over enumerated storage arrangements x operations x boundary arguments plus seeded random histories. Not a proof: histories outside the enumerated and sampled ones are not covered. Trusts TLC, compiler, ASan and the driver."}
NA = {}
