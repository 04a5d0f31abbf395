class BaseEstimator:
    """Stands in for sklearn's class, which is not installed here."""
