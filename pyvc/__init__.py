"""pyvc - a small deductive verifier for the Python code of /repo (see DESIGN.md)."""
