property = "C06"
needs = "a long episode that needs two or more old episodes to be discarded at once"
breaks = "at most one episode is discarded per finished episode, so the capacity is exceeded"
edits = [("pfrl/replay_buffers/episodic.py",
"            while self.capacity is not None and len(self.memory) > self.capacity:\n",
"            if self.capacity is not None and len(self.memory) > self.capacity:\n")]
demo = '''
from pfrl.replay_buffers import EpisodicReplayBuffer
rb = EpisodicReplayBuffer(6)
k = 0
for n in [1, 1, 1, 5]:
    for t in range(n):
        rb.append(state=k, action=0, reward=0.0, next_state=k + 1, is_state_terminal=t == n - 1)
        k += 1
assert len(rb) == 6 and rb.n_episodes == 2, (len(rb), rb.n_episodes)
'''
