property = "C04"
needs = "an update in which the largest priority is not the last of the batch"
breaks = "only the last priority of a batch enters the maximum, so new entries do not get the highest priority seen"
edits = [("pfrl/collections/prioritized.py",
"""            self.priority_mins[i] = p
            self.max_priority = max(self.max_priority, p)
""",
"""            self.priority_mins[i] = p
        if priority:
            self.max_priority = max(self.max_priority, p)
""")]
demo = '''
from pfrl.collections.prioritized import PrioritizedBuffer
b = PrioritizedBuffer(capacity=10)
for i in range(4):
    b.append(i)
b.sample(3)
b.set_last_priority([7.0, 3.0, 2.0])
b.append(99)
total = 7.0 + 3.0 + 2.0 + 1.0 + 7.0
b.sample(1)
assert abs(b.max_priority - 7.0) < 1e-9, b.max_priority
'''
