import kern


def run(rec, rng, tier):
    kern.sweep(rec, rng, tier, ('reflect',), {'P06'}, reps=8)
