"""vg - gated value-flow analysis of /repo's Python source (never runs it)."""
