"""Client classes of AttributeSavingMixin (what a user writes), used by C21."""
from pfrl.agent import AttributeSavingMixin


class Inner(AttributeSavingMixin):
    saved_attributes = ("a", "b")

    def __init__(self, a, b, c):
        self.a = a
        self.b = b
        self.c = c


class Outer(AttributeSavingMixin):
    saved_attributes = ("x", "y", "z")

    def __init__(self, x, y, z, w):
        self.x = x
        self.y = y
        self.z = z
        self.w = w
