"""Which generators and models decide which property."""
import g_int, g_rel, g_obj, g_bad, g_text, g_util, g_scl

PRINT = ('print', 'pprint', 'pprint_elts')
READ = ('read', 'pread')
# property -> list of (name, function, episodes quick, kwargs)
PLAN = {
    'C23': [('sclrel', g_scl.sclrel, 350, {}), ('sclscops', g_scl.sclscops, 350, {})],
    'C22': [('subst', g_util.subst, 600, {}), ('substpairs', g_util.substpairs, 64, {})],
    'C27': [('readers', g_util.readers, 700, {}), ('uptos', g_util.uptos, 250, {}), ('strings', g_util.strings, 150, {})],
    'C03': [('xround', g_text.xround, 500, {}), ('genround', g_text.genround, 150, {}), ('xprint', g_text.xprint, 80, {}),
            ('xread', g_text.xread, 80, {'bad': 0}), ('genread', g_text.genread, 60, {'bad': 0})],
    'C02': [('scopround', g_text.scops, 200, {'ops': ('roundtrip',)}), ('stmtround', g_text.stmts, 200, {'ops': ('roundtrip',)})],
    'C13': [('ints', g_int.ints, 700, {}), ('intpairs', g_int.intpairs, 200, {})],
    'C09': [('vecs', g_int.vecs, 600, {}), ('edit', g_rel.edit, 200, {})],
    'C08': [('edit', g_rel.edit, 900, {})],
    'C10': [('unions', g_rel.unions, 700, {})],
    'C17': [('integrity', g_rel.integrity, 300, {}), ('listattrs', g_obj.listattrs, 150, {}), ('stmtinteg', g_obj.stmtinteg, 200, {}),
            ('scopinteg', g_obj.scopinteg, 150, {})],
    'C18': [('attributes', g_rel.attributes, 300, {}), ('listattrs', g_obj.listattrs, 150, {}), ('stmtinteg', g_obj.stmtinteg, 150, {}),
            ('scopinteg', g_obj.scopinteg, 150, {})],
    'C16': [('extend', g_rel.extend, 300, {}), ('normalize', g_obj.normalize, 250, {}), ('normalizesmall', g_obj.normalizesmall, 200, {})],
    'C14': [('precision', g_rel.precision, 300, {}), ('ints', g_int.ints, 300, {'ops': 'io'}), ('listread', g_text.lists, 60, {'bad': 0.1, 'ops': READ}),
            ('stmtread', g_text.stmts, 60, {'bad': 0.1, 'ops': READ}), ('scopread', g_text.scops, 60, {'bad': 0.1, 'ops': READ}), ('xread', g_text.xread, 100, {'kinds': ('relation', 'dependence', 'symbols')})],
    'C24': [('relprint', g_rel.relprint, 400, {}), ('xprint', g_text.xprint, 250, {}), ('genprint', g_text.genprint, 150, {}),
            ('listprint', g_text.lists, 100, {'ops': PRINT}), ('stmtprint', g_text.stmts, 120, {'ops': PRINT}), ('scopprint', g_text.scops, 120, {'ops': PRINT})],
    'C05': [('relread', g_rel.relread, 400, {'bad': 0.5}), ('xread', g_text.xread, 300, {'bad': 0.7}), ('genread', g_text.genread, 150, {'bad': 0.7}),
            ('listread', g_text.lists, 100, {'bad': 0.7, 'ops': READ}), ('stmtread', g_text.stmts, 120, {'bad': 0.7, 'ops': READ}),
            ('scopread', g_text.scops, 150, {'bad': 0.7, 'ops': READ}), ('register', g_text.register, 80, {})],
    'C04': [('relread', g_rel.relread, 400, {}), ('xread', g_text.xread, 250, {'bad': 0.02}), ('genread', g_text.genread, 120, {'bad': 0.02}),
            ('listread', g_text.lists, 80, {'bad': 0.02, 'ops': READ}), ('stmtread', g_text.stmts, 100, {'bad': 0.02, 'ops': READ}),
            ('scopread', g_text.scops, 120, {'bad': 0.02, 'ops': READ}), ('register', g_text.register, 150, {})],
    'C01': [('relround', g_rel.relround, 500, {})],
    'C11': [('lists', g_obj.lists, 400, {}), ('listattrs', g_obj.listattrs, 150, {})],
    'C15': [('stmtunions', g_obj.stmtunions, 300, {})],
    'C19': [('registries', g_obj.registries, 300, {}), ('generic', g_obj.generic, 500, {}), ('dups', g_bad.dups, 200, {}), ('register', g_text.register, 100, {}), ('genread', g_text.genread, 100, {'bad': 0.1})],
    'C21': [('tables', g_obj.tables, 400, {})],
    'C25': [('statements', g_obj.statements, 250, {}), ('scops', g_obj.scops, 200, {}), ('stmtread', g_text.stmts, 60, {'bad': 0, 'ops': READ}), ('scopread', g_text.scops, 60, {'bad': 0, 'ops': READ})],
    'C26': [('grow', g_obj.grow, 500, {}), ('tables', g_obj.tables, 100, {})],
    'C07': [('xequal', g_obj.xobjs, 500, {'ops': 'set set equal equal equal clone null'.split()}), ('lists', g_obj.lists, 100, {}),
            ('generic', g_obj.generic, 150, {'ops': 'set perturb perturb perturb equal clone'.split()}),
            ('statements', g_obj.statements, 150, {'ops': 'set perturb perturb equal clone'.split()}),
            ('scops', g_obj.scops, 150, {'ops': 'set perturb perturb equal clone'.split()})],
    'C12': [('editlimits', g_bad.editlimits, 1500, {}), ('veclimits', g_bad.veclimits, 500, {}), ('dups', g_bad.dups, 300, {}),
            ('scatlimits', g_bad.scatlimits, 100, {}), ('relread', g_rel.relread, 150, {'bad': 0.5})],
    'C06': [('xclone', g_obj.xobjs, 400, {'ops': 'set clone clone free dump equal'.split()}), ('unions', g_rel.unions, 200, {}),
            ('lists', g_obj.lists, 100, {}), ('generic', g_obj.generic, 100, {}), ('registries', g_obj.registries, 60, {}),
            ('statements', g_obj.statements, 120, {'ops': 'clone clone nclone add free set equal remove_unions'.split()}),
            ('scops', g_obj.scops, 120, {'ops': 'clone clone add free set equal normalize'.split()}), ('grow', g_obj.grow, 150, {}),
            ('names', g_obj.names, 100, {})],
    'C20': [('xobjs', g_obj.xobjs, 200, {}), ('grow', g_obj.grow, 150, {}), ('tables', g_obj.tables, 60, {}), ('lists', g_obj.lists, 100, {}),
            ('generic', g_obj.generic, 100, {}), ('registries', g_obj.registries, 60, {}), ('statements', g_obj.statements, 80, {}),
            ('scops', g_obj.scops, 80, {}), ('normalize', g_obj.normalize, 60, {}), ('unions', g_rel.unions, 100, {}), ('edit', g_rel.edit, 150, {}),
            ('vecs', g_int.vecs, 60, {}), ('ints', g_int.ints, 60, {}), ('extend', g_rel.extend, 60, {}), ('precision', g_rel.precision, 60, {}),
            ('relprint', g_rel.relprint, 80, {}), ('relround', g_rel.relround, 80, {}), ('relread', g_rel.relread, 80, {}), ('names', g_obj.names, 60, {}),
            ('xprint', g_text.xprint, 60, {}), ('xround', g_text.xround, 60, {}), ('xread', g_text.xread, 60, {}), ('genprint', g_text.genprint, 40, {}),
            ('genround', g_text.genround, 40, {}), ('genread', g_text.genread, 60, {}), ('texts', g_text.lists, 40, {}), ('stmttexts', g_text.stmts, 40, {}),
            ('scoptexts', g_text.scops, 50, {}), ('register', g_text.register, 60, {}), ('subst', g_util.subst, 60, {}), ('readers', g_util.readers, 60, {}),
            ('uptos', g_util.uptos, 40, {}), ('strings', g_util.strings, 30, {}), ('sclrel', g_scl.sclrel, 50, {}), ('sclscops', g_scl.sclscops, 50, {})],
}

# family of spec/MCFamilies.tla -> depth of the exhaustive exploration (quick, thorough)
DEPTH = {'int': (1, 2), 'vec': (1, 2), 'edit': (1, 2), 'union': (2, 3), 'list': (2, 4), 'generic': (2, 4), 'table': (2, 3), 'grow': (4, 6), 'attr': (1, 1),
         'equal': (2, 4), 'scatt': (2, 4), 'prec': (3, 4), 'stmt': (2, 4), 'scop': (2, 4),
         'reltext': (1, 2), 'relprint': (1, 1), 'xtext': (1, 2), 'gentext': (1, 2), 'listtext': (1, 2), 'stmttext': (1, 2), 'scoptext': (1, 2),
         'subst': (1, 1), 'reader': (1, 1), 'uptotag': (1, 1), 'sclrel': (1, 1), 'sclscop': (2, 2)}
# property -> families whose histories it replays exhaustively
MODELS = {
    'C01': ('reltext',), 'C02': ('stmttext', 'scoptext'), 'C03': ('xtext', 'gentext'), 'C04': ('reltext', 'listtext', 'stmttext', 'scoptext'),
    'C05': ('reltext', 'xtext', 'gentext', 'listtext', 'stmttext', 'scoptext'), 'C22': ('subst',), 'C23': ('sclrel', 'sclscop'), 'C24': ('relprint',), 'C27': ('reader', 'uptotag'),
    'C06': ('equal', 'stmt', 'scop'), 'C07': ('equal', 'stmt', 'scop'), 'C08': ('edit',), 'C09': ('vec',), 'C10': ('union',), 'C11': ('list',), 'C12': ('edit', 'vec'),
    'C13': ('int',), 'C14': ('prec', 'int'), 'C15': ('stmt',), 'C16': ('scatt', 'scop'), 'C17': ('attr', 'stmt', 'scop'), 'C18': ('attr', 'stmt', 'scop'),
    'C19': ('generic',), 'C20': ('generic', 'grow', 'stmt', 'scop', 'equal'), 'C21': ('table',), 'C25': ('stmt', 'scop', 'scoptext'), 'C26': ('grow',),
}

NOT_APPLICABLE = {}
