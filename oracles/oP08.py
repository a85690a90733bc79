import kern


def run(rec, rng, tier):
    kern.sweep(rec, rng, tier, kern.OPS, {'P08'}, reps=8)
