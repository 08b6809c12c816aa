import numpy as np

STATE = []


def mutate(x):
    y = x.reshape(-1)
    y[0] = 1
    return y


def global_write(x):
    STATE.append(x)
    return x


def shape(x, y):
    return x + y


def unit(x):
    return x + x * x


def batch_reduce(p):
    return p.mean(axis=0)


def int_truncation(i, f):
    r = i.copy()
    r[:] = f
    return r


def attr_error(x):
    return x.no_such_attribute


def name_error(x):
    return no_such_name(x)


def arity(x):
    return shape(x)


def unbound(x):
    if x is None:
        r = 1
    return r


def index_rank(x):
    return x[:, :, 0]


def index_space(x, k):
    return x[k]


def deg_ok(x):
    return x * x


def deg_bad(x):
    return x * x * x


def tr_ok(x):
    return x - x[0]


def tr_bad(x):
    return x + x[0]


def lin_ok(x):
    return x * 2


def lin_bad(x):
    return x * x


def shape_ok(x):
    return x.sum(axis=1)


def shape_bad(x):
    return x.sum(axis=0)


def dtype_ok(x):
    return x * 1.0


def dtype_bad(x):
    return x > 0


def geo_ok(x):
    return np.zeros(x.shape[0])


def geo_bad(x):
    return np.zeros(x.shape[0]) + x[:, 0]


def random_bad(x):
    return x * np.random.rand()


def uninit_bad(x):
    return np.empty(x.shape)


def uninit_read(x):
    w = np.empty(len(x))
    w[x[:, 0] > 0] = 1
    return x * w[:, None]
