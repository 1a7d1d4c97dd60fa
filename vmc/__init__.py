"""Bounded exhaustive exploration of the beep implementation (see DESIGN.md)."""
