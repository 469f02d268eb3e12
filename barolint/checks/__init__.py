"""Rule instances per property."""

PROPS = {}


def prop(*ids):
    def deco(f):
        for i in ids:
            PROPS.setdefault(i, []).append(f)
        return f
    return deco


from . import model, grid, state, diag, forcing, io, text, plot, modules, args
