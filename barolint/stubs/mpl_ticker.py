class StrMethodFormatter:

    def __init__(self, fmt):
        self.fmt = fmt


class FuncFormatter:

    def __init__(self, func):
        self.func = func


class MultipleLocator:

    def __init__(self, base=1., offset=0.):
        self.base = base
