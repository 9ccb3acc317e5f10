from avro.schema import make, valid


class ValidationError(Exception):
    pass


def validate(datum, schema, *_, **__):
    if not valid(make(schema), datum):
        raise ValidationError(repr(datum))
    return True
