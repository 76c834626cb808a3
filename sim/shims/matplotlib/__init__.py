"""Stub of matplotlib (plots are not part of any property)."""
