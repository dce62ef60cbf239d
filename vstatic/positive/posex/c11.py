def bad_part(centering):
    if centering in 'interpixel':
        return 1
    return 0


def bad_negated(name):
    return 1 if name.lower() not in 'xinetics' else 0


def good_whole(centering, inputs, sign):
    if centering in ('interpixel',) and 'wStrut' in inputs and sign in '+-':
        return 1
    return 'interpixel' in centering
