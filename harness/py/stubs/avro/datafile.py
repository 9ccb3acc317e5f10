import json

from . import io, schema


def plain(d):
    if isinstance(d, bytes):
        return {"$bytes": d.decode("utf-8", "replace")}
    if isinstance(d, list):
        return [plain(x) for x in d]
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    return d


class DataFileWriter:
    """Keeps data in memory until a block is full or the file is flushed or closed, as the original does."""

    def __init__(self, writer, datum_writer, writer_schema=None, codec="null", **other):
        self.out = writer
        self.schema = writer_schema or other.get("schema") or other.get("writers_schema")
        self.block = []

    def append(self, datum):
        if not schema.valid(self.schema, datum):
            raise io.AvroTypeException(f"{datum!r} is not an example of the schema")
        self.block.append((json.dumps(plain(datum)) + "\n").encode())
        if sum(map(len, self.block)) >= 16000:
            self.sync()

    def sync(self):
        for line in self.block:
            self.out.write(line)
        self.block = []

    def flush(self):
        self.sync()
        self.out.flush()

    def close(self):
        self.flush()
        self.out.close()

    def __enter__(self):
        return self

    def __exit__(self, kind, value, trace):
        if kind is None:
            self.close()
