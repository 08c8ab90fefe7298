"""symx: a small symbolic-execution engine for Python source, backed by z3."""
