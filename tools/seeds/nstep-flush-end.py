property = "C05"
needs = "an n-step episode cut without a terminal state with at least three pending transitions"
breaks = "flushing drops transitions from the wrong end, so the stored windows start at the wrong transitions"
edits = [("pfrl/replay_buffers/replay_buffer.py",
"""            del last_n_transitions[0]
        while last_n_transitions:
            self.memory.append(list(last_n_transitions))
            del last_n_transitions[0]
""",
"""            del last_n_transitions[0]
        while last_n_transitions:
            self.memory.append(list(last_n_transitions))
            last_n_transitions.pop()
""")]
demo = '''
from pfrl.replay_buffers import ReplayBuffer
rb = ReplayBuffer(100, num_steps=3)
for t in range(4):
    rb.append(state=t, action=0, reward=0.0, next_state=t + 1)
rb.stop_current_episode()
got = [[x["state"] for x in rb.memory[i]] for i in range(len(rb.memory))]
assert got == [[0, 1, 2], [1, 2, 3], [2, 3], [3]], got
'''
