"""A stand-in for the version of statsmodels the library is written for: what it answers says exactly what it was fitted on."""
