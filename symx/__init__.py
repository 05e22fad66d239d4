"""Symbolic execution of the real rigeo sources over the reals, decided by z3."""
