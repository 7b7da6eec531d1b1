class VectorOfCounts:
    """Only named in signatures by the code under test."""
