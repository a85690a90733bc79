import kern


def run(rec, rng, tier):
    kern.sweep(rec, rng, tier, ('rSplit',), {'P09'}, reps=8)
