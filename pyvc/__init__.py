"""pyvc: a small deductive verifier for the Python subset used by OpenMDAO1.

Function bodies are extracted mechanically (ast) from /repo on every run and
executed symbolically; contracts live in /verif/contracts.  See DESIGN.md.
"""
