import kern, numpy as np, batoid


def run(rec, rng, tier):
    kern.sweep(rec, rng, tier, ('intersect', 'reflect', 'refract', 'rSplit', 'refractScreen'), {'P11'}, reps=8)
    for _ in range(20):
        r, t = rng.uniform(0, 1, 2)
        c = batoid.SimpleCoating(r, t)
        w, a = rng.uniform(300e-9, 2e-6), rng.uniform(-1, 1)
        rec.close(c.getCoefs(w, a), (r, t), 'both coefficients together', atol=0, rtol=0)
        rec.close(c.getReflect(w, a), r, 'reflectance alone', atol=0, rtol=0)
        rec.close(c.getTransmit(w, a), t, 'transmittance alone', atol=0, rtol=0)
