"""pyvc: modular verification-condition generator for a stated subset of Python (see DESIGN.md)."""
