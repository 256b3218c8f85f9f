"""pyvc: a contract verifier for the Python code that runs (see /verif/DESIGN.md)."""
