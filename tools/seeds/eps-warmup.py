property = "C15"
needs = "a linear schedule whose epsilon grows (start below end)"
breaks = "epsilon jumps to its final value at the first step instead of growing linearly"
edits = [("pfrl/explorers/epsilon_greedy.py", "            return self.start_epsilon + epsilon_diff * (t / self.decay_steps)\n", "            epsilon = self.start_epsilon + epsilon_diff * (t / self.decay_steps)\n            return max(epsilon, self.end_epsilon)\n")]
demo = '''
from pfrl.explorers import LinearDecayEpsilonGreedy

e = LinearDecayEpsilonGreedy(0.1, 0.9, 8, lambda: 0)
for t in range(12):
    e.select_action(t, lambda: 1)
    want = 0.1 + 0.8 * min(t, 8) / 8
    assert abs(e.epsilon - want) < 1e-9, (t, e.epsilon, want)
'''
