"""Registry: property id -> ([rule functions], what is decided)."""
REGISTRY = {}


def rule(pid, doc=None):
    def deco(f):
        r = REGISTRY.setdefault(pid, ([], doc or ''))
        r[0].append(f)
        if doc and not r[1]:
            REGISTRY[pid] = (r[0], doc)
        return f
    return deco


from . import splits, dataset, metrics, processes, samplers, models, loading, ownership, determinism
