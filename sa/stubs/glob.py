def glob(p):
    return []
