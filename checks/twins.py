"""Vacuity guard: the same machinery must find a violation when the expectation is wrong on purpose."""


def twin(cfg):
    import runcfg
    import spec
    orig = spec.contributions

    def wrong(op, n, r):
        out = orig(op, n, r)
        if not out:
            return out
        i, src = out[-1]
        q, w, k = src[-1]
        if len(src) > 1:
            src = src[:-1]                      # one addend is missing
        else:
            src = [(q, 's' if w == 'r' else 'r', k)]      # another origin
        return out[:-1] + [(i, src)]
    spec.contributions = wrong
    try:
        v = runcfg.run_config(cfg, runcfg.Stats(), races=False)
    except Exception as e:
        return dict(fires=False, error=repr(e))
    finally:
        spec.contributions = orig
    return dict(fires=bool(v) and v.kind == 'wrong-result', config=runcfg.cfgname(cfg), message=str(v)[:200])
