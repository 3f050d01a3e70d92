"""Which modules decide which property."""
COMMON = ['numpy/LAPACK results are reproducible on one machine', 'the JVM evaluates IEEE-754 double arithmetic correctly (java/Float64.java, java/Mat.java)',
          'TLC evaluates the specification correctly']


def _c(pid, **k):
    d = {'gen': pid + 'Gen', 'trace': pid, 'driver': pid.lower(), 'models': [], 'shards': 6, 'assumptions': COMMON}
    d.update(k)
    return d


CHECKS = {
    'C01': _c('C01', models=[('ALifeModel', 'ALifeModel.cfg')]),
    'C02': _c('C02', models=[('ALifeModel', 'ALifeModel.cfg')]),
    'C03': _c('C03'),
    'C04': _c('C04'),
    'C05': _c('C05'),
    'C23': _c('C23'),
    'C24': _c('C24'),
    'C10': _c('C10'),
    'C11': _c('C11'),
    'C12': _c('C12', models=[('CacheModel', 'CacheModel.cfg')]),
    'C28': _c('C28'),
    'C27': _c('C27'),
    'C22': _c('C22'),
    'C21': _c('C21'),
    'C20': _c('C20'),
    'C08': _c('C08'),
    'C13': _c('C13'),
    'C14': _c('C14', models=[('NumModel', 'NumModel.cfg')]),
    'C15': _c('C15', models=[('NumModel', 'NumModel.cfg')]),
    'C16': _c('C16', models=[('NumModel', 'NumModel.cfg')]),
    'C17': _c('C17'),
    'C18': _c('C18'),
    'C25': _c('C25'),
    'C26': _c('C26'),
    'C09': _c('C09'),
    'C19': _c('C19'),
    'C06': _c('C06', models=[('TLifeModel', 'TLifeModel.cfg')]),
    'C07': _c('C07'),
    'C29': _c('C29'),
}
