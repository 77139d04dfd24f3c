def argupdated_config(cfg, parser=None, namespace=None):
    return cfg
