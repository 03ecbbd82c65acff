def map1(f, xs):
    acc = []
    for x in xs:
        acc.append(f(x))
    return acc

def mapn(f, xs):
    acc = []
    for x in xs:
        acc.append(f(*x))
    return acc

def filter1(f, xs):
    acc = []
    for x in xs:
        if f is None:
            if x:
                acc.append(x)
        elif f(x):
            acc.append(x)
    return acc

def all1(xs):
    for x in xs:
        if not x:
            return False
    return True

def any1(xs):
    for x in xs:
        if x:
            return True
    return False

def sum1(xs, start):
    t = start
    for x in xs:
        t = t + x
    return t

def join0(xs, out):
    for x in xs:
        out = out + x
    return out

def dict_of(pairs):
    d = {}
    for k, v in pairs:
        d[k] = v
    return d

def same_lists(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            return False
    return True
