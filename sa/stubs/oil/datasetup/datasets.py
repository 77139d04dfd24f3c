def split_dataset(dataset, splits):
    return dict((k, dataset) for k in splits)
