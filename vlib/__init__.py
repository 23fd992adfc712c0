"""Runtime-monitoring machinery for Parquery/mapry."""
