"""scenario code of the contracts: instrumented like the code under verification, so its loops are cut with invariants too"""


def derive(parent, n, pick):
    """n derivations from parent: children, or follow-ups of earlier children, in any order"""
    last = None
    for _ in range(n):
        if pick() or last is None:
            parent.new_by_reference_type('child_of')
        else:
            last.new_by_reference_type('follows_from')
    return None


def derive_follow(parent, child, n, pick):
    for _ in range(n):
        if pick():
            parent.new_by_reference_type('child_of')
        else:
            child.new_by_reference_type('follows_from')
    return None


def two_made(make, n, d):
    """two objects made with n made before the first and d made between them"""
    for _ in range(n):
        make()
    a = make()
    for _ in range(d):
        make()
    b = make()
    return a, b


def store(m, k, v):
    m[k] = v
