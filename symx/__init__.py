"""symx - a small solver-based symbolic executor for Python source (see DESIGN.md)."""
