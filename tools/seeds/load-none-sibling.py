property = "C21"
needs = "an object using AttributeSavingMixin that has an absent (None) attribute listed before others"
breaks = "x"
edits = [("pfrl/agent.py", """        for attr in self.saved_attributes:
            assert hasattr(self, attr)
            attr_value = getattr(self, attr)
            if attr_value is None:
                continue
            if isinstance(attr_value, AttributeSavingMixin):
                assert not any(
                    attr_value is ancestor for ancestor in ancestors
                ), "Avoid an infinite loop"
                attr_value.load(""", """        for attr in self.saved_attributes:
            assert hasattr(self, attr)
            attr_value = getattr(self, attr)
            if attr_value is None:
                break
            if isinstance(attr_value, AttributeSavingMixin):
                assert not any(
                    attr_value is ancestor for ancestor in ancestors
                ), "Avoid an infinite loop"
                attr_value.load(""")]
breaks = "loading stops at the first absent attribute, so the attributes listed after it keep their old values"
demo = '''
import tempfile
import torch
from pfrl.agent import AttributeSavingMixin


class A(AttributeSavingMixin):
    saved_attributes = ("a", "b", "c")

    def __init__(self):
        self.a, self.b, self.c = torch.nn.Linear(1, 1), None, torch.nn.Linear(1, 1)


x, y = A(), A()
with tempfile.TemporaryDirectory() as d:
    x.save(d)
    y.load(d)
for n in "ac":
    for p, q in zip(getattr(x, n).parameters(), getattr(y, n).parameters()):
        assert torch.equal(p, q), n
'''
