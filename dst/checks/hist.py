"""Random histories of calls, shared by several checks."""
from .. import world as W


def gen_history(r, w, n, scribble=.25, make=.15, drop=.03, gid='h'):
    """List of actions with ids; recipes of objects made on the way"""
    g = W.Gen(r)
    g.w, g.by = list(w), {x['name']: x for x in w}
    g.n = 500
    acts = []
    ops = []
    pend = []            # names to look at soon
    dead = set()
    k = 0

    def push(a):
        nonlocal k
        a['id'] = k
        k += 1
        acts.append(a)
        return a['id']
    while len(acts) < n:
        x = r.random()
        alive = [z for z in g.w if z['name'] not in dead]
        if x < make:
            n0 = len(g.w)
            save = (list(g.w), dict(g.by))
            g.w = alive
            r.choice([g.sibling, g.sibling, g.basis, g.sampling, g.derived,
                      g.derived, g.derived])()
            new = [z for z in g.w if z['name'] not in save[1]]
            g.w = save[0] + new
            del n0
            for z in new:
                mid = push({'a': 'make', 'rec': z})
                if (z.get('pts') or z['t'] in ('upoly', 'rule')) and r.random() < .5:
                    push({'a': 'scribble', 'i': mid, 'w': 'arg',
                          'v': r.choice([0, 7, 1])})
                    for _ in range(2):
                        # anything it shares with the array shows here
                        o = W.gen_op(r, g.w, names={z['name']}, by=g.by)
                        push(o)
                        ops.append(o)
            if new and W.BY_KIND.get(W.kind_of(new[-1], g.by)):
                pend.append(new[-1]['name'])
            continue
        if r.random() < .03:
            push({'a': 'amb', 's': r.randrange(1 << 20)})
        if x < make + drop:
            c = [z['name'] for z in alive]
            if len(c) > 4:
                nm = r.choice(c)
                # objects recorded as built from it keep living
                users = [z for z in alive if nm in z.values() and z['name'] != nm]
                if not users:
                    dead.add(nm)
                    push({'a': 'drop', 'name': nm})
                    if r.random() < .3:
                        push({'a': 'gc'})
            continue
        if x < make + drop + scribble and ops:
            src = r.choice(ops[-6:])
            push({'a': 'scribble', 'i': src['id'],
                  'w': r.choice(['out', 'out', 'arg']), 'v': r.choice([0, 7, 1])})
            if r.random() < .6 and src['on'] not in dead:
                o = {'op': src['op'], 'on': src['on'], 'p': src['p']}
                push(o)
                ops.append(o)
            continue
        if pend and r.random() < .7:
            o = W.gen_op(r, g.w, names={pend.pop()}, by=g.by)
        elif ops and r.random() < .15 and ops[-1]['on'] not in dead:
            # at once with nearly the same arguments
            src = ops[-1]
            o = {'op': src['op'], 'on': src['on'], 'p': W.near(r, src['p'])}
        elif ops and r.random() < .45:
            src = r.choice(ops)
            if src['on'] in dead:
                continue
            o = {'op': src['op'], 'on': src['on'], 'p': src['p']}
            kd = W.kind_of(g.by[src['on']], g.by)
            y = r.random()
            if y < .35:
                o['p'] = W.OPS_KIND[(src['op'], kd)].gen(r, w)
            elif y < .7:
                c = [z['name'] for z in alive if W.kind_of(z, g.by) == kd]
                o['on'] = r.choice(c)
            elif y < .88:
                o['p'] = W.near(r, src['p'])
        else:
            o = W.gen_op(r, alive, by=g.by)
            if o['op'] == 'ad_mats' and r.random() < .5:
                o.update(op='ad_pts', p=W.OPS['ad_pts'].gen(r, w))
        push(o)
        ops.append(o)
    return acts


def recs_of(w, acts):
    return w + [a['rec'] for a in acts if a.get('a') == 'make']
