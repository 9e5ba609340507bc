"""Verification framework for structuralcodes (property-based testing)."""
