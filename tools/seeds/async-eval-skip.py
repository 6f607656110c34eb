property = "C12"
needs = "asynchronous training in which a worker's step count passes two evaluation boundaries before anybody evaluates"
breaks = "the boundary is moved to the step count, so a boundary that was crossed is skipped or later ones drift"
edits = [("pfrl/experiments/evaluator.py", "                self.prev_eval_t.value += self.eval_interval\n", "                self.prev_eval_t.value = t\n")]
demo = '''
import tempfile
import pfrl
from pfrl.experiments.evaluator import AsyncEvaluator


class Agent:
    def get_statistics(self):
        return []


with tempfile.TemporaryDirectory() as d:
    ev = AsyncEvaluator(n_steps=None, n_episodes=1, eval_interval=10, outdir=d, save_best_so_far_agent=False)
    ran = []
    ev.evaluate_and_update_max_score = lambda t, episodes, env, agent: ran.append(t) or 0.0
    for t in [3, 13, 19, 20, 29, 30, 31]:
        ev.evaluate_if_necessary(t, 0, object(), Agent())
assert ran == [13, 20, 30], ran
'''
