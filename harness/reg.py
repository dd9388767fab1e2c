"""registration of harness cases"""


class Case:
    def __init__(self, prop, name, fn, modes, opts):
        self.prop, self.name, self.fn, self.modes, self.opts = prop, name, fn, modes, opts


class Registry:
    def __init__(self):
        self.cases = []

    def case(self, prop, modes=("numpy",), tier="quick", name=None, **opts):
        """prop: the property decided; modes: library environments (numpy / stdlib)"""
        def deco(fn):
            c = Case(prop, name or fn.__name__, fn, tuple(modes), opts)
            c.tier = tier
            c.engine = opts.get("engine", "exact")
            self.cases.append(c)
            return fn
        return deco
