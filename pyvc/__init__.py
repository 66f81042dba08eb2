"""Deductive verifier for the python code of tranquilo (see DESIGN.md)."""
