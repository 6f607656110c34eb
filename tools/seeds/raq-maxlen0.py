property = "C01"
needs = "a queue of maximum length zero"
breaks = "a zero maximum length is treated as unbounded when appending"
edits = [("pfrl/collections/random_access_queue.py",
"        if self.maxlen is not None and len(self) > self.maxlen:\n            self.popleft()",
"        if self.maxlen and len(self) > self.maxlen:\n            self.popleft()")]
demo = '''
from pfrl.collections.random_access_queue import RandomAccessQueue
q = RandomAccessQueue(maxlen=0)
for i in range(5):
    q.append(i)
assert list(q) == [] and len(q) == 0, list(q)
'''
