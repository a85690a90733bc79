import kern


def run(rec, rng, tier):
    kern.sweep(rec, rng, tier, ('refract',), {'P07'}, reps=8)
