class Dataset(object):
    pass


class DataLoader(object):
    def __init__(self, dataset, batch_size=1, shuffle=False, **k):
        self.dataset = dataset
        self.batch_size = batch_size
        self.shuffle = shuffle
        self.kw = k
