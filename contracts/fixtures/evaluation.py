"""Client code of eval_mode and evaluating, used by C24."""
from pfrl.utils.contexts import evaluating


def nothing(agent, seen):
    with agent.eval_mode():
        seen(agent.training)


def failing(agent, seen):
    with agent.eval_mode():
        seen(agent.training)
        raise RuntimeError("evaluation failed")


def nested(agent, seen):
    with agent.eval_mode():
        with agent.eval_mode():
            seen(agent.training)
        seen(agent.training)


def leave_early(agent, seen):
    with agent.eval_mode():
        seen(agent.training)
        return 1
    return 2


def around(agent, body):
    with agent.eval_mode():
        body()


def within(net, body):
    with evaluating(net):
        body()


def within_failing(net, body):
    with evaluating(net):
        body()
        raise RuntimeError("evaluation failed")
