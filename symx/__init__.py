"""symx: symbolic execution of numpy-style Python code over the reals."""
