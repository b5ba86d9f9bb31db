"""Client programs: their contracts are lemmas over the real code they call."""


def equal_markings_have_equal_hashes(a, b):
    if a == b:
        return hash(a) == hash(b)
    return True
