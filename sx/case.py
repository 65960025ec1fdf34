class Case:
    """One harness with its bounds.  quick / thorough: parameter dicts (thorough overrides quick).
    expect: labels that must be reached (vacuity guard).
    fs: None | 'model' (the harness runs against the in-memory file system in both modes)
    split: list of parameter dicts, one explorer process each."""

    def __init__(self, name, fn, quick=None, thorough=None, expect=(), fs=None, split=None, limits=None,
                 thorough_only=False, split_thorough=None, bounds=''):
        self.name = name
        self.fn = fn
        self.quick = quick or {}
        self.thorough = dict(self.quick, **(thorough or {}))
        self.expect = tuple(expect)
        self.fs = fs
        self.split = split or [{}]
        self.split_thorough = split_thorough
        self.limits = limits or {}
        self.thorough_only = thorough_only
        self.bounds = bounds

    def parts(self, tier):
        base = self.thorough if tier == 'thorough' else self.quick
        sp = self.split_thorough if tier == 'thorough' and self.split_thorough else self.split
        return [dict(base, **s) for s in sp]
