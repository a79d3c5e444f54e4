"""Runtime monitors for fibermat (see /verif/DESIGN.md)."""
