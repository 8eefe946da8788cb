NOT_APPLICABLE = {}
TECH = {"*": "TLA+ specification model-checked with TLC; trace validation of the real code, and TLC-generated cases replayed into it"}
NOTE = {"*": "Exhaustive for the specification within the constants of its configuration; the code is compared with the specification on every recorded history (TLC-enumerated and seeded random cases). Trusts the recording harness, TLC and the toolchain."}
