"""Property-based checks for scikit-curve (see DESIGN.md)."""
