from . import validation


def parse_schema(s, *_, **__):
    return s
