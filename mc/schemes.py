"""Lists of schemes (build options) per dimension, used by checks that quantify over all of them."""


def classic(nd, lims=(0, 1, 2, 3, 4)):
    sp = {1: [dict()], 2: [dict(split=True), dict(split=False, trans=0), dict(split=False, trans=1), dict(split=False, trans=2)],
          3: [dict(split=True), dict(split=False, trans=0), dict(split=False, trans=11), dict(split=False, trans=22)]}[nd]
    out = []
    for s in sp:
        out.append(dict(s, fam='classic', order=1, lim=[0]))
        for l in lims:
            out.append(dict(s, fam='classic', order=2, lim=[l]))
    return out


def sharp(nd, weno=(5, 7, 11, 17), lims=(1, 2, 3, 4, 5), itg='Euler', wave=True):
    out = [dict(lim_type=2, weno=o) for o in weno]
    out += [dict(lim_type=1, lim=[l]) for l in lims]
    out += [dict(lim_type=3)]
    if wave:
        out += [dict(lim_type=2, weno=5, chard=1)] + [dict(lim_type=1, chard=1, lim=[l]) for l in lims]
    return [dict(o, fam='sharp', itg=itg) for o in out]


def ghost(o):
    if o.get('fam') != 'sharp':
        return 2
    return (o.get('weno', 5) + 1) // 2 if o.get('lim_type', 2) == 2 else 3


def name(o):
    return ','.join('%s=%s' % (k, o[k]) for k in sorted(o))
