def natsorted(xs):
    return sorted(xs)
