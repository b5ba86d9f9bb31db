"""Client programs: their contracts are lemmas over the real code they call."""


from pm4py.streaming.algo.discovery.dfg.variants import frequency


def started(parameters):
    return frequency.apply(parameters)


def received(algo, events):
    for e in events:
        algo.receive(e)
    return algo.get()


def discovered(parameters, events):
    algo = frequency.apply(parameters)
    return received(algo, events)
