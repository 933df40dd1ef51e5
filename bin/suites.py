"""Which specification modules, drivers and trace specifications decide which property."""
SUITES = {
    'hashtable': {
        'mc': [{'spec': 'HashTableMC', 'quick': 'HashTableMC.cfg', 'thorough': 'HashTableMCThorough.cfg'}],
        'gen': [{'spec': 'HashTableMC', 'cfg': 'HashTableGen.cfg'},
                {'spec': 'HashTableMC', 'cfg': 'HashTableSim.cfg',
                 'extra': ['-simulate', 'num=300', '-seed', '$SEED', '-depth', '15'],
                 'thorough': ['-simulate', 'num=3000', '-seed', '$SEED', '-depth', '15']}],
        'driver': 'hashtable.py', 'trace': 'HashTableTrace'},
    'contfrac': {
        'mc': [{'spec': 'ContFracMC', 'quick': 'ContFracMC.cfg', 'thorough': 'ContFracMCThorough.cfg', 'props': ['C01']},
               {'spec': 'ContFracMC', 'quick': 'ContFracHist.cfg', 'props': ['C02']}],
        'gen': [{'spec': 'ContFracMC', 'cfg': 'ContFracGen.cfg'}],
        'driver': 'contfrac.py', 'trace': 'ContFracTrace'},
    'polyenum': {
        'mc': [{'spec': 'PolyEnumMC', 'quick': 'PolyEnumMC.cfg', 'thorough': 'PolyEnumMCThorough.cfg', 'props': ['C03']},
               {'spec': 'PolyRootsMC', 'quick': 'PolyRootsMC.cfg', 'thorough': 'PolyRootsMCThorough.cfg', 'props': ['C04']}],
        'gen': [{'spec': 'PolyEnumMC', 'cfg': 'PolyEnumGen.cfg'}],
        'driver': 'polyenum.py', 'trace': 'PolyEnumTrace'},
    'lhs': {
        'mc': [{'spec': 'LhsMC', 'quick': 'LhsMC.cfg', 'thorough': 'LhsMCThorough.cfg', 'props': ['C05', 'C06']},
               {'spec': 'UniqMC', 'quick': 'UniqMC.cfg', 'thorough': 'UniqMCThorough.cfg', 'props': ['C12']}],
        'gen': [{'spec': 'LhsMC', 'cfg': 'LhsSim.cfg', 'props': ['C06'],
                 'extra': ['-simulate', 'num=300', '-seed', '$SEED', '-depth', '6'],
                 'thorough': ['-simulate', 'num=4000', '-seed', '$SEED', '-depth', '6']}],
        'driver': 'lhs.py', 'trace': 'LhsTrace'},
    'config': {
        'mc': [{'spec': 'ConfigMC', 'quick': 'ConfigMC.cfg', 'thorough': 'ConfigMCThorough.cfg', 'props': ['C16']},
               {'spec': 'SplitMC', 'quick': 'SplitMC.cfg', 'thorough': 'SplitMCThorough.cfg', 'props': ['C14']}],
        'gen': [{'spec': 'ConfigMC', 'cfg': 'ConfigGen.cfg', 'props': ['C15', 'C16']},
                {'spec': 'SplitMC', 'cfg': 'SplitGen.cfg', 'props': ['C14']}],
        'driver': 'config.py', 'trace': 'ConfigTrace'},
    'store': {
        'mc': [{'spec': 'StoreMC', 'quick': 'StoreMC.cfg', 'thorough': 'StoreMCThorough.cfg'},
               {'spec': 'StoreMC', 'quick': 'StoreSeq.cfg'}],
        'gen': [{'spec': 'StoreMC', 'cfg': 'StoreGen.cfg',
                 'extra': ['-simulate', 'num=250', '-seed', '$SEED', '-depth', '18'],
                 'thorough': ['-simulate', 'num=2500', '-seed', '$SEED', '-depth', '18']}],
        'driver': 'store.py', 'trace': 'StoreTrace'},
    'mitm': {
        'mc': [{'spec': 'MitmMC', 'quick': 'MitmMC.cfg', 'thorough': 'MitmMCThorough.cfg'}],
        'gen': [{'spec': 'MitmMC', 'cfg': 'MitmGen.cfg',
                 'extra': ['-simulate', 'num=600', '-seed', '$SEED', '-depth', '11'],
                 'thorough': ['-simulate', 'num=6000', '-seed', '$SEED', '-depth', '11']}],
        'driver': 'mitm.py', 'trace': 'MitmTrace', 'shards': 8},
    'converge': {
        'mc': [{'spec': 'ConvergeMC', 'quick': 'ConvergeMC.cfg', 'thorough': 'ConvergeMCThorough.cfg'}],
        'gen': [{'spec': 'ConvergeMC', 'cfg': 'ConvergeGen.cfg',
                 'extra': ['-simulate', 'num=400', '-seed', '$SEED', '-depth', '5'],
                 'thorough': ['-simulate', 'num=3000', '-seed', '$SEED', '-depth', '5']}],
        'driver': 'converge.py', 'trace': 'ConvergeTrace', 'shards': 8},
    'export': {
        'mc': [{'spec': 'ExportMC', 'quick': 'ExportMC.cfg', 'thorough': 'ExportMCThorough.cfg'}],
        'gen': [{'spec': 'ExportMC', 'cfg': 'ExportGen.cfg',
                 'extra': ['-simulate', 'num=300', '-seed', '$SEED', '-depth', '2'],
                 'thorough': ['-simulate', 'num=2000', '-seed', '$SEED', '-depth', '2']}],
        'driver': 'export.py', 'trace': 'ExportTrace'},
    'consts': {
        'mc': [{'spec': 'ConstsMC', 'quick': 'ConstsMC.cfg', 'thorough': 'ConstsMCThorough.cfg'}],
        'gen': [{'spec': 'ConstsMC', 'cfg': 'ConstsGen.cfg',
                 'extra': ['-simulate', 'num=150', '-seed', '$SEED', '-depth', '10'],
                 'thorough': ['-simulate', 'num=3000', '-seed', '$SEED', '-depth', '10']}],
        'driver': 'consts.py', 'trace': 'ConstsTrace', 'shards': 3},
    'postfuncs': {
        'mc': [{'spec': 'PostFuncsMC', 'quick': 'PostFuncsMC.cfg', 'thorough': 'PostFuncsMCThorough.cfg'}],
        'gen': [{'spec': 'PostFuncsMC', 'cfg': 'PostFuncsGen.cfg'}],
        'driver': 'postfuncs.py', 'trace': 'PostFuncsTrace', 'shards': 7},
    'utils': {
        'mc': [{'spec': 'UtilsMC', 'quick': 'UtilsMC.cfg', 'thorough': 'UtilsMCThorough.cfg'}],
        'gen': [{'spec': 'UtilsMC', 'cfg': 'UtilsGen.cfg'},
                {'spec': 'UtilsMC', 'cfg': 'UtilsSim.cfg', 'extra': ['-simulate', 'num=300', '-seed', '$SEED', '-depth', '15'],
                 'thorough': ['-simulate', 'num=5000', '-seed', '$SEED', '-depth', '15']}],
        'driver': 'utilities.py', 'trace': 'UtilsTrace', 'shards': 8},
    'pipeline': {
        'mc': [{'spec': 'RunsMC', 'quick': 'RunsMC.cfg', 'thorough': 'RunsMCThorough.cfg', 'props': ['C20']},
               {'spec': 'PipelineMC', 'quick': 'PipelineMC.cfg', 'thorough': 'PipelineMCThorough.cfg', 'props': ['C22']},
               {'spec': 'DistMC', 'quick': 'DistMC.cfg', 'thorough': 'DistMCThorough.cfg', 'props': ['C23', 'C24']}],
        'gen': [{'spec': 'RunsMC', 'cfg': 'RunsGen.cfg', 'props': ['C20']},
                {'spec': 'DistMC', 'cfg': 'DistSim.cfg', 'props': ['C23', 'C24'],
                 'quick': ['-simulate', 'num=3000', '-depth', '11', '-seed', '$SEED'], 'thorough': ['-simulate', 'num=20000', '-depth', '11', '-seed', '$SEED']},
                {'spec': 'DistMC', 'cfg': 'DistAll.cfg', 'props': ['C23', 'C24'],
                 'quick': ['-simulate', 'num=1500', '-depth', '15', '-seed', '$SEED'], 'thorough': ['-simulate', 'num=5000', '-depth', '15', '-seed', '$SEED']}],
        'driver': 'pipeline.py', 'trace': 'PipelineTrace', 'shards': 7,
        'parts': {'C23': ['%dof8' % k for k in range(8)], 'C24': ['%dof8' % k for k in range(8)], 'C20': ['%dof8' % k for k in range(8)], 'C22': ['%dof18' % k for k in (2, 3, 10, 11, 0, 1, 4, 5, 14, 15, 6, 7, 12, 13, 16, 17, 8, 9)]}},
}
PROPERTIES = {
    'C01': {'suites': ['contfrac']},
    'C02': {'suites': ['contfrac']},
    'C03': {'suites': ['polyenum']},
    'C04': {'suites': ['polyenum']},
    'C05': {'suites': ['lhs']},
    'C06': {'suites': ['lhs']},
    'C07': {'suites': ['hashtable']},
    'C08': {'suites': ['hashtable']},
    'C09': {'suites': ['mitm']},
    'C10': {'suites': ['mitm']},
    'C11': {'suites': ['mitm']},
    'C12': {'suites': ['lhs']},
    'C13': {'suites': ['converge']},
    'C14': {'suites': ['config']},
    'C15': {'suites': ['store', 'config']},
    'C18': {'suites': ['consts']},
    'C19': {'suites': ['postfuncs']},
    'C17': {'suites': ['export']},
    'C16': {'suites': ['config']},
    'C21': {'suites': ['utils']},
    'C20': {'suites': ['pipeline']},
    'C22': {'suites': ['pipeline']},
    'C23': {'suites': ['pipeline']},
    'C24': {'suites': ['pipeline']},
}
