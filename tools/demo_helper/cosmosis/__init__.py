"""A stand-in for the parts of CosmoSIS that the pipeline modules use."""
