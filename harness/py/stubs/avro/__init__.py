"""A stand-in for the avro package: just what the repository's scripts use.

Schemas expose the attributes of avro-python3; data files are written as one
JSON text per datum, after the datum has been validated.
"""
