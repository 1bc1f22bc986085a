"""What every proof rests on, and what stays unchecked."""

BASE = [
    "the verification-condition generator in /verif/vc (Python semantics of the subset it accepts)",
    "z3 and cvc5",
    "CPython's ast module; the code that runs is the source that was parsed",
]

ASSUME = {}


def base(prop):
    return BASE + ASSUME.get(prop, {}).get("trusted", [])


def assumptions(prop):
    return ASSUME.get(prop, {}).get("assumptions", ["machine integers and floats are treated as mathematical integers and reals"])
