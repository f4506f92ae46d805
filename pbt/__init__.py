"""Property-based testing machinery for probayes."""
