def flatten_dict(d):
    return dict(d)
