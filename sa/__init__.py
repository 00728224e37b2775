"""Static-analysis library specific to anyoptimization/pymoo (source only; never imports or runs it)."""
