registered = []


def register_class(cls, doc=None, read_fun=None, hdf5_format=None):
    registered.append(cls)


def register_backward_compatibility_method(*a, **k):
    pass
