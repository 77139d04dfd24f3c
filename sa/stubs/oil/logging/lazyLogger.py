class Frame(object):
    """the part of a data frame that is used"""
    def __init__(self, rows):
        self.rows = rows

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Frame(self.rows[k])
        return Column([r[k] for r in self.rows if k in r])


class Column(object):
    def __init__(self, xs):
        import numpy as np
        self.xs = xs
        self.iloc = xs

    @property
    def values(self):
        import numpy as np
        return np.array(self.xs)


class LazyLogger(object):
    def __init__(self, log_dir=None, comment='', **kwargs):
        self.scalars = []
        self.on = True

    def add_scalars(self, name, dct, step=None):
        self.scalars.append((name, dict(dct), step))

    def add_text(self, *a, **k):
        pass

    def report(self, *a, **k):
        pass

    @property
    def scalar_frame(self):
        rows = {}
        for n, d, s in self.scalars:
            if s is None:
                continue
            row = rows.setdefault(s, {})
            for k in d:
                row.setdefault(k, d[k])       # combine_first: what is there stays
        return Frame([rows[s] for s in sorted(rows)])

    def __enter__(self):
        return self.on

    def __exit__(self, *a):
        return False
