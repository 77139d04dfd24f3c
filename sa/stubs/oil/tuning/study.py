def guess_metric_sign(metric_name):
    name = metric_name.lower()
    for s in ['acc', 'map', 'precision', 'score', 'reward']:
        if s in name:
            return True
    for s in ['mse', 'mae', 'loss', 'bpd', 'nll', 'err']:
        if s in name:
            return False
    assert False, 'Unknown sign'


class train_trial(object):
    def __init__(self, make_trainer, strict=True):
        self.make_trainer = make_trainer
