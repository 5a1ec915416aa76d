"""Deterministic thinning of a set of behaviours (independent of TLC's order)."""


def thin(n):
    def f(emitted):
        import json

        uniq = sorted({json.dumps(e, sort_keys=True) for e in emitted})
        if len(uniq) <= n:
            return [json.loads(s) for s in uniq]
        step = len(uniq) / float(n)
        return [json.loads(uniq[int(i * step)]) for i in range(n)]
    return f


def fewer(is_slow, keep, then=None):
    """keeps one in `keep` of the behaviours that are slow to replay"""
    def f(emitted):
        import json

        em = sorted(then(emitted) if then else emitted, key=lambda e: json.dumps(e, sort_keys=True))
        return [e for e in em if not is_slow(e)] + [e for e in em if is_slow(e)][::keep]
    return f
