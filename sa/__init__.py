"""Static analysis of dtformats."""
