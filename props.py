# per-property build and search configuration
def P(lib, quick, thorough, **kw):
    d = dict(lib=lib, cases=dict(quick=quick, thorough=thorough), san='asan')
    d.update(kw)
    return d


PROPS = {
    'C01': P(['math'], 150000, 1000000),
    'C02': P(['math', 'state'], 120000, 400000),
    'C03': P(['math', 'state'], 40000, 600000),
    'C04': P(['math', 'state'], 40000, 600000),
    'C05': P(['core'], 20000, 400000),
    'C06': P(['core'], 12000, 200000),
    'C07': P(['core'], 20000, 400000),
    'C09': P(['core'], 15000, 300000),
    'C10': P(['core'], 15000, 300000),
    'C08': P(['core'], 10000, 60000),
    'C11': P(['core'], 60000, 400000),
    'C12': P(['core'], 30000, 400000),
    'C13': P(['core'], 20000, 300000),
    'C14': P(['core'], 8000, 100000),
    'C15': P(['core'], 5000, 60000),
    'C16': P(['core'], 6000, 60000, nondeterministic=True),
    'C17': P(['core'], 30000, 400000),
    'C18': P(['core'], 30000, 400000),
    'C19': P(['kin', 'measurement', 'math'], 60000, 800000),
    'C20': P(['kin', 'measurement', 'math'], 20000, 300000),
    'C21': P(['measurement'], 30000, 500000),
    'C22': P(['core', 'wheel'], 15000, 300000),
    'C23': P(['core', 'kin', 'ros'], 60000, 800000),
    'C24': P(['core', 'rospub'], 12000, 150000),
    'C26': P(['core', 'kin', 'ros', 'wheel'], 1500, 20000, san='tsan', nondeterministic=True, shards=4),
    'C25': P(['core', 'wheel', 'rospub'], 15000, 200000),
    'C29': P(['core', 'kin', 'ros', 'examples'], 6000, 100000, nondeterministic=True, shards=4),
    'C27': P([], 40000, 400000, python=True),
    'C28': P(['core', 'kin', 'wheel'], 3500, 60000),
}
