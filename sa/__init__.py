"""Static-analysis framework for fib-international/structuralcodes."""
