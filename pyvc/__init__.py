"""pyvc: a deductive verifier for the Python functions of the repository (see DESIGN.md)."""
