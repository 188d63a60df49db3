"""Signatures and reads of arguments of the public functions (part of C44).

The documented interface is a table. The analysed definition of every public
function and method is resolved through the imports of the package; names, order
and (evaluated) default values of its parameters are compared with the table, and
every documented parameter has to be read somewhere in the definition.
"""
import ast

from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import AnalysisBroken, Cls, Fun, Ref, Tup

# name of the function: (name of the parameter[, default])
TABLE = {
    'wulfric.ConventionNotSupported.__init__': [('convention',), ('supported_conventions',)],
    'wulfric.FailedToDeduceAtomSpecies.__init__': [('name',)],
    'wulfric.Kpoints.__init__': [('rcell',), ('coordinates', None), ('names', None), ('labels', None), ('path', None), ('n', 100)],
    'wulfric.Kpoints.from_crystal': [('cell',), ('atoms',), ('convention', 'HPKOT'), ('with_time_reversal', True), ('n', 100), ('spglib_data', None)],
    'wulfric.Kpoints.add_hs_point': [('name',), ('coordinate',), ('label', None), ('relative', True)],
    'wulfric.Kpoints.remove_hs_point': [('name',)],
    'wulfric.Kpoints.ticks': [('relative', False)],
    'wulfric.Kpoints.points': [('relative', False)],
    'wulfric.Kpoints.flat_points': [('relative', False)],
    'wulfric.Kpoints.copy': [],
    'wulfric.Kpoints.hs_table': [('decimals', 8)],
    'wulfric.NiggliReductionFailed.__init__': [('max_iterations',)],
    'wulfric.PlotlyEngine.__init__': [('fig', None), ('_sphinx_gallery_fix', False), ('rows', 1), ('cols', 1)],
    'wulfric.PlotlyEngine.show': [('axes_visible', True), ('legend_position', 'top'), ('**kwargs',)],
    'wulfric.PlotlyEngine.save': [('output_name', 'wulfric-plot.html'), ('axes_visible', True), ('legend_position', 'top'), ('kwargs_write_html', None), ('**kwargs',)],
    'wulfric.PlotlyEngine.plot_points': [('points',), ('colors', '#000000'), ('legend_label', None), ('legend_group', None), ('scale', 1), ('row', 1), ('col', 1)],
    'wulfric.PlotlyEngine.plot_line': [('start_point',), ('end_point',), ('color', '#000000'), ('legend_label', None), ('legend_group', None), ('row', 1), ('col', 1)],
    'wulfric.PlotlyEngine.plot_vector': [('start_point',), ('end_point',), ('color', '#000000'), ('vector_label', None), ('legend_label', None), ('legend_group', None), ('row', 1), ('col', 1)],
    'wulfric.PlotlyEngine.plot_cell': [('cell',), ('color', '#000000'), ('plot_vectors', True), ('vector_label', 'a'), ('shift', (0, 0, 0)), ('legend_label', None), ('legend_group', None), ('row', 1), ('col', 1)],
    'wulfric.PlotlyEngine.plot_wigner_seitz_cell': [('cell',), ('plot_vectors', True), ('vector_label', 'a'), ('color', '#000000'), ('shift', (0.0, 0.0, 0.0)), ('legend_label', None), ('legend_group', None), ('row', 1), ('col', 1)],
    'wulfric.PlotlyEngine.plot_brillouin_zone': [('cell',), ('plot_vectors', True), ('vector_label', 'b'), ('color', '#FF4D67'), ('shift', (0.0, 0.0, 0.0)), ('legend_label', None), ('legend_group', None), ('row', 1), ('col', 1)],
    'wulfric.PlotlyEngine.plot_kpath': [('kp',), ('color', '#000000'), ('shift', (0.0, 0.0, 0.0)), ('legend_label', None), ('legend_group', None), ('row', 1), ('col', 1)],
    'wulfric.PlotlyEngine.plot_kpoints': [('kp',), ('color', '#000000'), ('shift', (0.0, 0.0, 0.0)), ('legend_label', None), ('legend_group', None), ('scale', 1), ('only_from_kpath', False), ('row', 1), ('col', 1)],
    'wulfric.PlotlyEngine.plot_lattice': [('cell',), ('color', '#000000'), ('range', (1, 1, 1)), ('shift', (0, 0, 0)), ('legend_label', None), ('legend_group', None), ('row', 1), ('col', 1)],
    'wulfric.PlotlyEngine.plot_atoms': [('cell',), ('atoms',), ('colors', None), ('legend_label', None), ('legend_group', None), ('shift', (0, 0, 0)), ('scale', 1), ('add_hoverinfo', True), ('row', 1), ('col', 1)],
    'wulfric.PotentialBugError.__init__': [('error_summary',)],
    'wulfric.SpglibData.__init__': [('cell',), ('atoms',), ('spglib_symprec', 1e-05), ('spglib_angle_tolerance', -1)],
    'wulfric.add_sugar': [('dictionary',)],
    'wulfric.compare_with_tolerance': [('x',), ('condition',), ('y',), ('eps', None), ('rtol', 1e-05), ('atol', 1e-08)],
    'wulfric.get_spglib_data': [('cell',), ('atoms',), ('spglib_symprec', 1e-05), ('spglib_angle_tolerance', -1)],
    'wulfric.get_spglib_types': [('atoms',)],
    'wulfric.lepage': [('cell',), ('angle_tolerance', 0.0001), ('give_all_results', False), ('no_niggli', False)],
    'wulfric.logo': [('info', None), ('line_length', None), ('flat', False), ('date_time', False), ('comment', None)],
    'wulfric.remove_sugar': [('candy',)],
    'wulfric.validate_spglib_data': [('cell',), ('atoms',), ('spglib_data',)],
    'wulfric.cell.SC_BCC': [('a',)],
    'wulfric.cell.SC_BCT': [('a',), ('c',)],
    'wulfric.cell.SC_CUB': [('a',)],
    'wulfric.cell.SC_FCC': [('a',)],
    'wulfric.cell.SC_HEX': [('a',), ('c',)],
    'wulfric.cell.SC_MCL': [('a',), ('b',), ('c',), ('alpha',)],
    'wulfric.cell.SC_MCLC': [('a',), ('b',), ('c',), ('alpha',)],
    'wulfric.cell.SC_ORC': [('a',), ('b',), ('c',)],
    'wulfric.cell.SC_ORCC': [('a',), ('b',), ('c',)],
    'wulfric.cell.SC_ORCF': [('a',), ('b',), ('c',)],
    'wulfric.cell.SC_ORCI': [('a',), ('b',), ('c',)],
    'wulfric.cell.SC_RHL': [('a',), ('alpha',)],
    'wulfric.cell.SC_TET': [('a',), ('c',)],
    'wulfric.cell.SC_TRI': [('a',), ('b',), ('c',), ('alpha',), ('beta',), ('gamma',), ('input_reciprocal', False)],
    'wulfric.cell.from_params': [('a', 1.0), ('b', 1.0), ('c', 1.0), ('alpha', 90.0), ('beta', 90.0), ('gamma', 90.0)],
    'wulfric.cell.get_brillouin_zone': [('cell',)],
    'wulfric.cell.get_lattice_points': [('cell',), ('range', (1, 1, 1)), ('relative', False), ('flat', True)],
    'wulfric.cell.get_niggli': [('cell',), ('eps_relative', 1e-05), ('implementation', 'spglib'), ('max_iterations', 100000)],
    'wulfric.cell.get_params': [('cell',)],
    'wulfric.cell.get_reciprocal': [('cell',)],
    'wulfric.cell.get_scalar_products': [('cell',)],
    'wulfric.cell.get_transformation_matrix': [('original_cell',), ('transformed_cell',)],
    'wulfric.cell.get_wigner_seitz_cell': [('cell',)],
    'wulfric.cell.sc_get_example': [('lattice_variation', None)],
    'wulfric.crystal.cure_negative': [('atoms',)],
    'wulfric.crystal.ensure_000': [('atoms',)],
    'wulfric.crystal.get_atom_species': [('name',), ('raise_on_fail', False)],
    'wulfric.crystal.get_atoms_species': [('atoms',), ('raise_on_fail', False)],
    'wulfric.crystal.get_conventional': [('cell',), ('atoms',), ('convention', 'HPKOT'), ('spglib_data', None)],
    'wulfric.crystal.get_distance': [('cell',), ('atoms',), ('atom1',), ('atom2',), ('R', (0, 0, 0))],
    'wulfric.crystal.get_primitive': [('cell',), ('atoms',), ('convention', 'HPKOT'), ('spglib_data', None)],
    'wulfric.crystal.get_unique_names': [('atoms',), ('strategy', 'all')],
    'wulfric.crystal.get_vector': [('cell',), ('atoms',), ('atom1',), ('atom2',), ('R', (0, 0, 0)), ('return_relative', False)],
    'wulfric.crystal.hpkot_get_example': [('extended_bl_symbol',), ('with_inversion', False)],
    'wulfric.crystal.hpkot_get_extended_bl_symbol': [('cell',), ('atoms',), ('spglib_data', None)],
    'wulfric.crystal.sc_get_variation': [('cell',), ('atoms',), ('spglib_data', None)],
    'wulfric.crystal.shift_atoms': [('atoms',), ('gravity_point', (0.5, 0.5, 0.5)), ('cell', None), ('gp_is_relative', True)],
    'wulfric.crystal.validate_atoms': [('atoms',), ('required_keys', None), ('raise_errors', True)],
    'wulfric.geometry.get_angle': [('v1',), ('v2',), ('radians', False)],
    'wulfric.geometry.get_spherical': [('vector',), ('in_degrees', True), ('polar_axis', [0, 0, 1]), ('radial_line_zero', [1, 0, 0])],
    'wulfric.geometry.get_volume': [('*args',)],
    'wulfric.geometry.parallelepiped_check': [('a',), ('b',), ('c',), ('alpha',), ('beta',), ('gamma',), ('raise_error', False), ('length_tolerance', 1e-08), ('angle_tolerance', 0.0001)],
    'wulfric.io.dump_poscar': [('cell',), ('atoms',), ('file_object', 'POSCAR'), ('comment', None), ('decimals', 8), ('mode', 'Direct')],
    'wulfric.io.load_poscar': [('file_object', None)],
    'wulfric.kpoints.get_path_and_points': [('cell',), ('atoms',), ('spglib_data', None), ('convention', 'HPKOT'), ('with_time_reversal', True), ('relative', True)],
    'wulfric.kpoints.get_path_as_list': [('path_as_string',)],
    'wulfric.kpoints.get_path_as_string': [('path_as_list',)],
}


def obligations(ctx, done=()):
    it = ctx.interp("plain")
    for f, params in TABLE.items():
        n = f.replace(".__init__", "")
        given = [p for p in params if not p[0].startswith("*")]
        if f not in done and n not in done:
            ctx.ob(f"{n}: names and order of arguments", names, ctx, it, f, params)
            if given:
                ctx.ob(f"{n}: values bound to omitted arguments", defaults, ctx, it, f, given)
        if given:
            ctx.ob(f"{n}: every argument is read", used, ctx, it, f, given)


def find(it, f):
    try:
        v = it.public(f)
    except AnalysisBroken:
        if not f.endswith(".__init__"):
            raise
        c = it.public(f[:-9])
        if not isinstance(c, Cls):
            raise Undecided(f"{f} is not a class")
        raise Undecided("the class has no constructor of its own")
    if isinstance(v, Cls):
        raise Undecided(f"{f} is a class")
    if not isinstance(v, Fun):
        raise Undecided(f"{f} is not a plain function")
    for d in v.node.decorator_list:
        n = ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1]
        if n not in ("staticmethod", "classmethod", "lru_cache", "cache"):
            raise Undecided(f"{f} is decorated by {n}")
    a = v.node.args
    pos = a.posonlyargs + a.args
    if len(f.split(".")) >= 3 and f.split(".")[-2][0].isupper() and v.kind != "staticmethod":
        if not pos:
            raise Undecided(f"{f} takes self in another way")
        own, pos = {pos[0].arg}, pos[1:]
    else:
        own = set()
    it.functions_seen.add(v.qual)
    return v, a, pos, own


def names(ctx, it, f, params):
    v, a, pos, own = find(it, f)
    loc = fun_loc(v)
    by_pos = [p.arg for p in pos]
    by_name = {p.arg for p in a.args + a.kwonlyargs} - own
    want = [p[0] for p in params]
    ctx.count("parameters", len(want))
    for i, p in enumerate(w for w in want if not w.startswith("*")):
        if p not in by_name and a.kwarg is None:
            raise Violation(f"{f} does not accept the argument {p} by its name", loc, f"{f} {p} name")
        if i >= len(by_pos) and a.vararg is None:
            raise Violation(f"{f} does not accept the argument {p} by its position {i + 1}", loc, f"{f} {p} position")
        if i < len(by_pos) and by_pos[i] != p and p in by_name:
            raise Violation(f"{f} takes the argument {i + 1} as {by_pos[i]}, not as {p}", loc, f"{f} {p} order")
        if p not in by_name or i >= len(by_pos):
            raise Undecided(f"{f} takes {p} through a starred argument")
    if "*args" in want and a.vararg is None:
        raise Violation(f"{f} does not accept any number of arguments", loc, f"{f} args") if not a.args and not a.kwarg else Undecided("*args")
    if "**kwargs" in want and a.kwarg is None:
        raise Violation(f"{f} does not accept further keyword arguments", loc, f"{f} kwargs")
    need = [p.arg for p in pos + a.kwonlyargs if p.arg not in v.defaults and (p.arg,) not in params and "*args" not in want]
    if need:
        raise Violation(f"{f} requires {need[0]}, which may be omitted", loc, f"{f} {need[0]} required")


def value(v, a, p):
    d = v.defaults[p]
    if tm.is_k(d):
        d = d.args[1]
    if isinstance(d, Tup):
        d = tuple(x.args[1] if tm.is_k(x) else x for x in d.items)
    if isinstance(d, Ref):
        pos = a.posonlyargs + a.args
        node = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)).get(p)
        try:
            d = ast.literal_eval(node)
        except (ValueError, TypeError):
            raise Undecided(f"default of {p} is an object")
    return d


def plain(x):
    return isinstance(x, (bool, int, float, str)) or isinstance(x, (tuple, list)) and all(plain(y) for y in x)


def same(x, y):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    return x == y or (isinstance(x, float) and isinstance(y, float) and abs(x - y) <= 1e-12 * abs(x))


def defaults(ctx, it, f, params):
    v, a, pos, own = find(it, f)
    loc = fun_loc(v)
    unknown = None
    for p in params:
        if len(p) == 1:
            continue
        if p[0] not in v.defaults:
            raise Undecided(f"{p[0]} has no default in the definition")
        ctx.count("defaults")
        d = value(v, a, p[0])
        if p[1] is None or d is None or not plain(d):
            if d is not p[1]:
                unknown = f"default of {p[0]} is replaced in the body: {d!r}"
            continue
        if not same(p[1], d):
            raise Violation(f"default of {p[0]} in {f} is {d!r}, not {p[1]!r}", loc, f"{f} {p[0]} default")
    if unknown:
        raise Undecided(unknown)


def used(ctx, it, f, params):
    v, a, pos, own = find(it, f)
    read = {x.id for b in v.node.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    if read & {"locals", "vars", "eval", "exec"}:
        raise Undecided("arguments are read by their names")
    mine = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
    for p in params:
        if p[0] in mine and p[0] not in read:
            raise Violation(f"the argument {p[0]} of {f} has no effect: it is never read", fun_loc(v), f"{f} {p[0]} unused")
