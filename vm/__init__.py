"""Runtime monitors for diamondback."""
