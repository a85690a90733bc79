import kern


def run(rec, rng, tier):
    kern.sweep(rec, rng, tier, ('refractScreen',), {'P10'}, reps=8)
