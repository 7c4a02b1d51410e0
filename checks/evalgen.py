"""Sentences and near copies of them."""
def sent(rng, V, lo=0, hi=8):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8])
    n = min(max(n, lo), hi)
    if rng.random() < 0.15:
        n = min(max(n, 1, lo), hi)
    return [rng.randrange(V) for _ in range(n)]

def near(rng, s, V, hi=9):
    k = rng.random()
    if k < 0.12:
        return list(s)
    if k < 0.25:
        return sent(rng, V, hi=hi)
    s = list(s)
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < 0.3 and s:
            del s[rng.randrange(len(s))]
        elif x < 0.55 and len(s) < hi:
            s.insert(rng.randint(0, len(s)), rng.randrange(V + 1))
        elif x < 0.75 and s:
            s[rng.randrange(len(s))] = rng.randrange(V + 1)
        elif len(s) > 1:
            # move a block
            i = rng.randrange(len(s)); j = rng.randint(i + 1, min(len(s), i + 3))
            b = s[i:j]; del s[i:j]
            p = rng.randint(0, len(s))
            s[p:p] = b
    return s
