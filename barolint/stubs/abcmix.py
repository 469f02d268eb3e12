class Sequence:
    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        n = len(self)
        return iter([self[n - 1 - i] for i in range(n)])

    def index(self, value):
        for i in range(len(self)):
            v = self[i]
            if v is value or v == value:
                return i
        raise ValueError

    def count(self, value):
        return sum([1 for v in self if v is value or v == value])
