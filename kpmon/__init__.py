"""Runtime monitors for kikuchipy."""
