"""Driver: mob graphs built through the API; the mobs each mob depends on."""
import os, random
import drv, avb


def mob_id(k):
    m = avb.mobid.MobID()
    m.SMPTELabel = [k % 251] * 12
    m.length, m.instanceHigh, m.instanceMid, m.instanceLow = 1, k // 251, 2, 3
    return m


def nest(f, r, clips):
    """the clips inside some nesting of sequences and selectors"""
    if not clips:
        return f.create.Filler(media_kind='picture')
    if len(clips) == 1 and r.random() < .5:
        return clips[0]
    k = r.random()
    cut = r.randrange(len(clips) + 1)
    a, b = clips[:cut], clips[cut:]
    if k < .5 or len(clips) > 50:
        s = f.create.Sequence(media_kind='picture')
        for c in ([nest(f, r, a)] if a and len(a) < len(clips) else a) + b:
            s.components.append(c)
        return s
    s = f.create.Selector()
    s.media_kind = 'picture'
    s.is_ganged = False
    s.selected = 0
    s.tracks = []
    for part in (a, b):
        if part:
            t = f.create.Track()
            t.component = part[0] if len(part) == 1 else nest(f, r, part) if len(part) < len(clips) else seq(f, part)
            s.tracks.append(t)
    return s


def seq(f, parts):
    s = f.create.Sequence(media_kind='picture')
    for c in parts:
        s.components.append(c)
    return s


def graph(c, work):
    r = random.Random(c['seed'])
    f = avb.open()
    mobs = {}
    for k in range(1, c['n'] + 1):
        m = f.create.Composition(mob_type=r.choice(['MasterMob', 'CompositionMob', 'SourceMob']))
        m.name = u'm%d' % k
        m.mob_id = mob_id(k)
        mobs[k] = m
    for k, m in mobs.items():
        clips = []
        for a, b in c['edges']:
            if a == k:
                s = f.create.SourceClip(media_kind='picture')
                s.mob_id = mob_id(b)
                s.track_id = 1
                clips.append(s)
        r.shuffle(clips)
        cut = r.randrange(len(clips) + 1)
        for part in (clips[:cut], clips[cut:]):
            if part or r.random() < .3:
                t = f.create.Track()
                t.index = 1
                t.component = nest(f, r, part)
                m.tracks.append(t)
    order = list(mobs.values())
    r.shuffle(order)
    for m in order:
        f.content.add_mob(m)
    if c.get('save'):
        p = os.path.join(work, 'g.avb')
        f.write(p)
        f.close()
        f = avb.open(p)
        mobs = dict((int(m.name[1:]), m) for m in f.content.mobs)
    got = []
    for k in range(1, c['n'] + 1):
        out = []
        for m in mobs[k].dependant_mobs():
            out.append(int(m.name[1:]))
            if len(out) > 3 * c['n'] + 10:
                break
        got.append(out)
    f.close()
    return {'got': got}


def main(job, work):
    out = []
    for c in job['cases']:
        try:
            out.append(graph(c, work))
        except Exception as e:
            out.append(drv.err(e))
    return out


if __name__ == '__main__':
    drv.run(main)
