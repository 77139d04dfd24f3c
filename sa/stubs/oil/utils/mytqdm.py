def tqdm(it, *a, **k):
    return it
