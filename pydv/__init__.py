"""pydv: a small deductive verifier for the Python of tomnor/channelpack.

It reads the functions under contract from /repo's current source (ast),
executes them symbolically path by path, cuts every loop of unknown length with
an inductive invariant, replaces calls of contracted functions by their
contracts, and hands each obligation to z3 (cvc5 as the second back end).
"""
