FIELDS = ('name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'multi',
          'parent_id', 'id', 'file_id', 'old_id', 'gid', 'user_id', 'mode', 'errors')


def same(field, a, b):
    if a is None or b is None:
        return a is None and b is None
    if field in ('errors', 'etag'):
        return len(a) == len(b) and all([x == y for x, y in zip(a, b)])
    if field == 'size':
        return int(a) == int(b)
    return type(a) == type(b) and a == b


def int_literal(s):
    try:
        int(s)
        return True
    except ValueError:
        return False
