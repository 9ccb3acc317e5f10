from . import schema


class AvroTypeException(Exception):
    pass


class DatumWriter:
    def __init__(self, writer_schema=None):
        self.writer_schema = writer_schema


Validate = schema.valid
validate = schema.valid
