"""C06 replay: episodic buffers against a list of episodes."""
import numpy as np


def part_episodic(h):
    from pfrl.replay_buffers import EpisodicReplayBuffer, PrioritizedEpisodicReplayBuffer

    h.rule = "random interleavings of transitions/terminals/stops over 1-3 envs, several capacities"
    np.random.seed(h.seed)
    for it in range(h.n(400)):
        cap, nenv = h.rng.choice([None, 1, 3, 7, 15, 40]), h.rng.choice([1, 2, 3])
        prio = h.rng.random() < 0.35
        h.case(("prio" if prio else "plain", cap, nenv, it))
        rb = PrioritizedEpisodicReplayBuffer(cap) if prio else EpisodicReplayBuffer(cap)
        cur, eps, tid, ev = {}, [], 0, []
        pend = 0.15
        for _ in range(h.rng.choice([8, 40, 80])):
            env = h.rng.randrange(nenv)
            c = cur.setdefault(env, [])
            if h.rng.random() < pend:
                if env == 0 and h.rng.random() < 0.5:
                    rb.stop_current_episode()
                else:
                    rb.stop_current_episode(env_id=env)
                ev.append(("stop", env))
                fin = c
                cur[env] = []
            else:
                term = h.rng.random() < 0.15
                kw = dict(next_action=None, is_state_terminal=term, env_id=env, mark=tid * 3)
                if env == 0 and h.rng.random() < 0.5:
                    del kw["env_id"]
                if not term and h.rng.random() < 0.5:
                    del kw["is_state_terminal"]
                rb.append(("s", tid), tid, float(tid), ("s", tid + 1), **kw)
                ev.append((env, tid, term))
                c.append(tid)
                tid += 1
                fin = c if term else []
                if term:
                    cur[env] = []
            if fin:
                eps.append(fin)
                while cap is not None and sum(map(len, eps)) > cap:
                    eps.pop(0)
            mem = rb.episodic_memory
            stored = list(mem.data if hasattr(mem, "data") else mem)
            got = [[t["action"] for t in e] for e in stored]
            h.eq(got, eps, "stored episodes", events=ev[-25:], cap=cap)
            h.eq(rb.n_episodes, len(eps), "n_episodes")
            if not prio:
                flat = [t for e in eps for t in e]
                ids = [[t["action"] for t in e] for e in rb.memory]
                h.eq(ids, [[t] for t in flat], "stored transitions", events=ev[-25:], cap=cap)
                h.eq(len(rb), len(flat), "length")
            for e in stored:
                for t in e:
                    h.check(t["state"] == ("s", t["action"]) and t["next_state"] == ("s", t["action"] + 1)
                            and t["reward"] == float(t["action"]) and t["mark"] == t["action"] * 3, "fields", t=repr(t))


PARTS = [part_episodic]
