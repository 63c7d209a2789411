"""New objects (C22) against AvbCreate."""
import re
import base
import p_wire as pw

CLIPS = ['Filler', 'Edgecode', 'ParamClip', 'ControlClip', 'SourceClip', 'Timecode', 'TrackRef']
COMPS = CLIPS + ['Sequence', 'TrackGroup', 'TrackEffect', 'PanVolumeEffect', 'AudioSuitePluginEffect', 'EqualizerMultiBand', 'CaptureMask',
                 'StrobeEffect', 'MotionEffect', 'Repeat', 'EssenceGroup', 'TransitionEffect', 'Selector']
OTHERS = ['AIFCDescriptor', 'ANCDataDescriptor', 'ASPIPlugin', 'ASPIPluginChunk', 'AVBRefList', 'Attributes', 'BOBPosition', 'Bin', 'BinFirst', 'BinItem', 'BinRef',
          'BinViewSetting', 'CDCIDescriptor', 'CFUserParam', 'ColorCorrectionEffect', 'Composition', 'ControlPoint',
          'ControlPointProperty', 'DIDDescriptor', 'DIDPosition', 'DataDescriptor', 'EffectParam', 'EffectParamList', 'EqualizerBand',
          'FilmDescriptor', 'GraphicEffect', 'JPEGDescriptor', 'MPGADescriptor', 'MPGIDescriptor', 'MPGPosition', 'MSMLocator',
          'MacFileLocator', 'Marker', 'MediaDescriptor', 'MediaFileDescriptor', 'MobRef', 'MultiDescriptor', 'NagraDescriptor',
          'PCMADescriptor', 'ParamControlPoint', 'ParamControlPointProperty', 'ParameterItem', 'ParameterList', 'Position',
          'RGBADescriptor', 'ShapeList', 'SiftItem', 'TapeDescriptor', 'TimeCrumbList', 'Track', 'TrackerData', 'TrackerDataSlot',
          'TrackerManager', 'TrackerParameter', 'TrackerParameterSlot', 'URLLocator', 'WaveDescriptor', 'WinFileLocator']
ALL = sorted(COMPS + OTHERS)
IMAGES = ['CDCIDescriptor', 'JPEGDescriptor', 'MPGIDescriptor', 'DIDDescriptor', 'RGBADescriptor']
KINDS = ['nothing', 'picture', 'sound', 'timecode', 'edgecode', 'attribute', 'effectdata', 'DescriptiveMetadata', 'DataEssenceTrack']
MUTABLE = ['Bin', 'BinFirst', 'BinViewSetting', 'ASPIPlugin', 'Attributes', 'SourceClip', 'Composition', 'Sequence', 'Filler', 'TrackEffect', 'Selector',
           'ParameterList', 'TimeCrumbList', 'AVBRefList'] + IMAGES


def P(s):
    return {'at': 'prop', 's': s, 'n': 0}


def N(n):
    return {'at': 'place', 's': '', 'n': n}


def K(s):
    return {'at': 'key', 's': s, 'n': 0}


def val(rng):
    return rng.choice([['int', rng.randrange(-999, 999)], ['text', u'x%d' % rng.randrange(99)], ['bool', True], ['list', [['int', 1]]], ['none']])


def num(rng):
    return ['int', rng.randrange(-999, 999)]


def shapes(rng, cls):
    """the places of a new object that can be edited: (path, how)"""
    out = []

    def lst(path, n):
        if n:
            out.append((path + [N(rng.randrange(1, n + 1))], 'put'))
            out.append((path, 'drop'))
        out.append((path, 'append'))

    def att(path):
        out.append((path + [P('items'), K(rng.choice('ab'))], 'put'))

    def column(path):
        out.append((path + [P('columns'), N(rng.randrange(1, 16)), K(rng.choice(['title', 'format', 'hidden', 'more']))], 'put'))
    if cls in ('Bin', 'BinFirst'):
        lst([P('home_rect')], 4)
        lst([P('background_color')], 3)
        lst([P('forground_color')], 3)
        lst([P('items')], 0)
        lst([P('sort_columns')], 0)
        out.append(([P('sifted_settings'), N(rng.randrange(1, 6)), P(rng.choice(['method', 'string', 'column']))], 'put'))
        out.append(([P('sifted_settings')], 'drop'))
        att([P('attributes')])
        column([P('view_setting')])
        lst([P('view_setting'), P('columns')], 17)
        lst([P('view_setting'), P('format_descriptors')], 0)
        att([P('view_setting'), P('attributes')])
        out.append(([P('view_setting'), P('name')], 'put'))
        out.append(([P(rng.choice(['display_mask', 'mac_font', 'large_bin', 'uid']))], 'put'))
    elif cls == 'BinViewSetting':
        column([])
        lst([P('columns')], 17)
        lst([P('format_descriptors')], 0)
        att([P('attributes')])
        out.append(([P('kind')], 'put'))
    elif cls in IMAGES:
        lst([P('aspect_ratio')], 2)
        lst([P('line_map')], 2)
        out.append(([P(rng.choice(['stored_width', 'compress_method', 'locator', 'mob_kind']))], 'put'))
    elif cls == 'Attributes':
        att([])
    elif cls in ('ParameterList', 'TimeCrumbList', 'AVBRefList'):
        lst([P('items')], 0)
    elif cls == 'ASPIPlugin':
        lst([P('chunks')], 0)
        out.append(([P('name')], 'put'))
    elif cls in COMPS + ['Composition']:
        att([P('attributes')])
        out.append(([P(rng.choice(['edit_rate', 'name', 'media_kind_id', 'session_attrs']))], 'put'))
        if cls == 'Sequence':
            lst([P('components')], 0)
        elif cls not in CLIPS:
            lst([P('tracks')], 0)
        if cls in ('SourceClip', 'Composition'):
            out.append(([P('mob_id')], 'byte'))
            out.append(([P('mob_id')], 'byte'))
    elif cls == 'SiftItem':
        out.append(([P('string')], 'put'))
    elif cls == 'BinItem':
        out.append(([P('x')], 'put'))
    elif cls.endswith('Descriptor'):
        out.append(([P('locator')], 'put'))
    return out


def args(rng, cls):
    a = {}
    if cls == 'Composition':
        if rng.random() < .5:
            a['name'] = u'name%d' % rng.randrange(9)
        if rng.random() < .5:
            a['mob_type'] = rng.choice(['MasterMob', 'SourceMob', 'CompositionMob'])
    elif cls in COMPS:
        if rng.random() < .6:
            a['edit_rate'] = rng.choice([24, 30, 48000, 1])
        if rng.random() < .6:
            a['media_kind'] = rng.choice(KINDS)
    return a


def ops(rng, n):
    held = {5: ('Bin', 0), 6: ('Bin', 0)}
    pool = [rng.choice(ALL), rng.choice(MUTABLE), rng.choice(MUTABLE)]
    shrunk = set()
    out = []

    def create(cls):
        r = rng.randrange(1, 5)
        shrunk.discard(r)
        held[r] = (cls, 0)
        return {'op': 'create', 'class': cls, 'doc': rng.choice([1, 1, 2]), 'args': args(rng, cls), 'r': r, 'positional': rng.random() < .4}
    for _ in range(n):
        k = rng.random()
        cand = [r for r in held if r not in shrunk]
        if k < .5 and cand:
            r = rng.choice(cand)
            s = shapes(rng, held[r][0])
            if s:
                path, how = rng.choice(s)
                e = {'op': 'edit', 'r': r, 'path': path, 'how': how}
                if how == 'byte':
                    e.update(n=rng.choice([1, 13, 16, 32]), b=rng.randrange(256))
                elif how == 'put' and path[-1]['s'] == 'name' or how == 'put' and path[-1]['s'] in ('kind', 'string', 'column', 'title'):
                    e['v'] = ['text', u'other']
                elif how in ('put', 'append'):
                    e['v'] = val(rng) if path[-1]['at'] != 'place' else num(rng)
                    if path[0]['s'] == 'items' and path[0]['at'] == 'prop' and held[r][0] in ('ParameterList', 'TimeCrumbList', 'AVBRefList'):
                        e['v'] = ['none']
                    if path[-1] == P('attributes') or path[-1]['s'] in ('session_attrs', 'locator'):
                        e['v'] = ['none']
                if how == 'drop':
                    # a place that may be gone now is not edited again
                    shrunk.add(r)
                out.append(e)
                continue
        if k < .58:
            out.append({'op': 'bad', 'doc': 1, 'class': rng.choice(['Nothing', 'filler', 'Filler', 'Composition']), 'args': {}})
            c = out[-1]['class']
            out[-1]['args'] = {'media_kind': 'film'} if c == 'Filler' else {'mob_type': 'Mob'} if c == 'Composition' else {}
            continue
        e = create(rng.choice(pool) if rng.random() < .7 else rng.choice(ALL))
        if rng.random() < .35:
            x = create(rng.choice(pool) if rng.random() < .5 else rng.choice(ALL))
            if x['r'] != e['r']:
                e['inner'] = x
                e['when'] = rng.choice(['between', 'first', 'second'])
        held[e['r']] = (e['class'], 0)
        out.append(e)
    return out


def c22(c):
    rng = c.rng
    cases = [{'ops': ops(rng, rng.choice([4, 8, 14]))} for _ in range(6000 if c.thorough else 600)]
    for cls in ALL:
        # every class twice, with every one of its edits in between, and in another document
        for path, how in shapes(rng, cls) or [(None, None)]:
            o = [{'op': 'create', 'class': cls, 'doc': 1, 'args': {}, 'r': 1}]
            if path:
                o.append({'op': 'edit', 'r': 1, 'path': path, 'how': how, 'n': 16, 'b': 9,
                          'v': ['none'] if cls in ('ParameterList', 'TimeCrumbList', 'AVBRefList') or path[-1]['s'] in ('session_attrs', 'locator')
                          else ['text', u'other'] if path[-1]['s'] in ('name', 'kind', 'string', 'column', 'title') else num(rng)})
            o += [{'op': 'create', 'class': cls, 'doc': d, 'args': args(rng, cls), 'r': 1 + d, 'positional': d == 2} for d in (1, 2)]
            cases.append({'ops': o})
    parts = [list(range(len(cases)))[i::8] for i in range(8)]
    hs = [(ks, c.driver_start('drv_create.py', {'cases': [cases[k] for k in ks]})) for ks in parts]
    live, obs = [], []
    for ks, h in hs:
        r = c.accept(c.driver_wait(h, 600), 'drv_create.py')
        for k, x in zip(ks, r or []):
            if 'err' in x:
                e = cases[k]['ops'][x['at']]
                c.violation('raised:%s %s %s' % (x['err'], e['op'], e.get('class', '')), 'creating or editing new objects raised %s %s' % (x['err'], x['msg']),
                            {'case': cases[k], 'at': x['at']})
            else:
                live.append(k)
                obs.append(x)
    verdict = c.tlc_batch('CreateTrace', [dict(ops=cases[k]['ops'], obs=x['obs'], start=x['start']) for k, x in zip(live, obs)],
                          stuck=[{'at': 1, 'what': 'what was observed fits no state'}])
    classes = set()
    for k, x, v in zip(live, obs, verdict):
        for e in cases[k]['ops']:
            if e['op'] == 'create':
                classes.add(e['class'])
        for b in v:
            e = cases[k]['ops'][b['at'] - 1]
            r = b.get('r', 0)
            own = r == e.get('r') or r == e.get('inner', {}).get('r')
            what = '%s %s: %s' % (e['op'], e.get('class', ''), b['what'] if b['what'] != 'objects' else 'the new object is wrong' if own and e['op'] == 'create'
                                  else 'the edited object is wrong' if own else 'another object changed')
            c.violation(what, what, {'case': cases[k], 'verdict': b, 'observed': x['obs'][b['at'] - 1]['regs'][r - 1] if r else None})
    c.cov.update(programs=len(cases), disagreements_checked=sum(len(cases[k]['ops']) for k in live), classes=len(classes))
    c.sample(cases[0])


CHECKS = {'C22': (pw.TV, c22)}
