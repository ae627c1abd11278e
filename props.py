"""Which generated checks decide which property, on which builds, with how many cases."""
HARNESSES = {
    'h_solver': dict(files=['h_solver.cpp', 'pbt.cpp']),
    'h_utils': dict(files=['h_utils.cpp', 'pbt.cpp']),
    'h_dimacs': dict(files=['h_dimacs.cpp', 'pbt.cpp']),
    'h_proof': dict(files=['h_proof.cpp', 'pbt.cpp']),
    'h_observer': dict(files=['h_observer.cpp', 'pbt.cpp']),
    'h_cli': dict(files=['h_cli.cpp', 'pbt.cpp'], cli=True),
}


def s(p, quick, thorough, fl=('fast', 'dbg'), h='h_solver', **kw):
    return [dict(h=h, p=p, fl=f, quick=quick, thorough=thorough, **kw) for f in fl]


PROPS = {
    'S01': dict(title='verdict', runs=s('verdict', 60000, 4000000)),
    'S02': dict(title='model', runs=s('model', 110000, 4000000)),
    'S03': dict(title='incremental', runs=s('incremental', 130000, 4000000)),
    'S04': dict(title='enumeration', runs=s('enumeration', 30000, 2000000)),
    'S05': dict(title='limits', runs=s('limits', 50000, 3000000)),
    'S06': dict(title='presentation', runs=s('presentation', 40000, 2000000)),
    'S07': dict(title='closure', runs=s('closure', 130000, 4000000)),
    'S08': dict(title='driven', runs=s('driven', 120000, 4000000)),
    'S09': dict(title='facts', runs=s('facts', 60000, 4000000)),
    'S10': dict(title='isolation', runs=s('isolation', 30000, 2000000)),
    'S11': dict(title='scale', runs=s('scale', 160, 8000, fl=('fast',), batch=4)),
    'S12': dict(title='unused', runs=s('unused', 60000, 4000000)),
    'S13': dict(title='costs', runs=s('costs', 120000, 4000000)),
    'S14': dict(title='sound build', runs=s('sound_build', 40000, 3000000, fl=('san',)) + s('sound_build', 50000, 3000000, fl=('dbg',))),
    'S15': dict(title='suggested polarity', runs=s('suggest', 60000, 3000000, h='h_observer')),
    'S17': dict(title='phases', runs=s('phases', 60000, 3000000, h='h_observer')),
    'S18': dict(title='stats', runs=s('stats', 40000, 2000000, h='h_observer')),
    'S16': dict(title='threads', runs=s('threads', 6000, 300000, fl=('fast',)) + s('threads', 3000, 150000, fl=('tsan',))),
    'U01': dict(title='bitset', runs=s('bitset', 20000, 2000000, h='h_utils') + s('bitset', 8000, 800000, fl=('san',), h='h_utils')),
    'U02': dict(title='heap', runs=s('heap', 60000, 5000000, h='h_utils') + s('heap', 30000, 2000000, fl=('san',), h='h_utils')),
    'U03': dict(title='avl', runs=s('avl', 40000, 4000000, h='h_utils') + s('avl', 20000, 1000000, fl=('san',), h='h_utils')),
    'U04': dict(title='luby', runs=s('luby', 2000, 40000, fl=('fast',), h='h_utils')),
    'U05': dict(title='numbers', runs=s('numbers', 100000, 10000000, h='h_utils')),
    'U06': dict(title='justify', runs=s('justify', 100000, 10000000, h='h_utils') + s('justify', 40000, 2000000, fl=('san',), h='h_utils')),
    'U07': dict(title='tracker', runs=s('tracker', 60000, 5000000, h='h_utils')),
    'U08': dict(title='exporter', runs=s('exporter', 8000, 400000, h='h_utils')),
    'D01': dict(title='meaning of a file', runs=s('meaning', 30000, 2000000, h='h_dimacs')),
    'D02': dict(title='files', runs=s('files', 12000, 600000, h='h_dimacs')),
    'D03': dict(title='malformed files', runs=s('malformed', 60000, 5000000, fl=('fast',), h='h_dimacs') + s('malformed', 40000, 2000000, fl=('san',), h='h_dimacs')),
    'D04': dict(title='notes in files', runs=s('notes', 20000, 1500000, h='h_dimacs')),
    'P01': dict(title='solver proofs', runs=s('proof', 90000, 3000000, h='h_proof')),
    'P02': dict(title='proof object', runs=s('chains', 80000, 6000000, fl=('fast',), h='h_proof') + s('chains', 30000, 1500000, fl=('san',), h='h_proof')),
    'C01': dict(title='program', runs=s('program', 16000, 400000, h='h_cli')),
    'C02': dict(title='all models', runs=s('models', 6000, 300000, h='h_cli')),
    'C03': dict(title='options', runs=s('options', 40000, 1000000, h='h_cli')),
    'C04': dict(title='interactive', runs=s('interactive', 80000, 3000000, h='h_cli')),
    'C05': dict(title='help', runs=s('help', 20000, 400000, h='h_cli')),
    'U09': dict(title='option system', runs=s('parser', 50000, 1500000, h='h_cli')),
    'O01': dict(title='mirror', runs=s('mirror', 60000, 2500000, h='h_observer')),
    'O05': dict(title='details', runs=s('details', 15000, 700000, h='h_observer') + s('details', 4000, 200000, fl=('san',), h='h_observer')),
    'O06': dict(title='printed', runs=s('printed', 15000, 700000, h='h_observer') + s('printed', 4000, 200000, fl=('san',), h='h_observer')),
    'O03': dict(title='core', runs=s('core', 120000, 3000000, h='h_observer')),
    'O04': dict(title='repair', runs=s('repair', 60000, 3000000, h='h_observer')),
    'O02': dict(title='invariants', runs=s('invariants', 60000, 3000000, fl=('fast',), h='h_observer') + s('invariants', 120000, 4000000, fl=('dbg',), h='h_observer')),
}
