"""Explicit rules: obligations enumerated from the source, beside the contracts."""
RULES = {}
