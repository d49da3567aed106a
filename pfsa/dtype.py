def integer_stores(o):
    return []
