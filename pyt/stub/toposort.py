"""Stand-in for the toposort package (not installed here): groups of items whose dependencies came earlier."""
class CircularDependencyError(ValueError):
    pass
def toposort(data):
    data = {k: set(v) - {k} for k, v in data.items()}
    for x in set().union(*data.values()) - set(data) if data else ():
        data[x] = set()
    while True:
        ready = {k for k, v in data.items() if not v}
        if not ready:
            break
        yield ready
        data = {k: v - ready for k, v in data.items() if k not in ready}
    if data:
        raise CircularDependencyError("circular dependencies among %s" % list(data))
def toposort_flatten(data, sort=True):
    out = []
    for g in toposort(data):
        out += sorted(g) if sort else list(g)
    return out
