"""writes /verif/MANIFEST.json; the claimed properties and their notes are listed here"""
import json
T = 'contract-based deductive verification: verification conditions generated from /repo source, discharged by z3'
TB = ' with a bounded run of the real code standing in for what the verifier cannot reach'
CLAIM = {
    'C20': ('proof', T, 'bilinear_interpolation meets its contract for every table, offset and query point, over the reals; '
            'trusts the generator in /verif/pyvc, z3, and floats as reals (real floats: bounded run, not counted as proof).'),
    'C03': ('proof', T + TB, 'slot numbering, state and derivative order, and setting, refreshing, resetting and reading values by name meet their '
            'contracts for any variables; the kernel\'s own slot write and read are assumed contracts (C04, C05).'),
    'C06': ('proof', T + TB, 'CompiledModel state/derivative/Jacobian/residual functions and the delegating interface methods meet their contracts '
            'for every size and value; the generated kernel itself is an assumed contract (C03-C05) and floats are reals.'),
    'C07': ('proof', T + TB, 'buffer, full-buffer signal, flush and table growth meet their contracts for every size and history; '
            'pandas concatenation, frame construction and the installed solver\'s calling order are assumed contracts.'),
    'C08': ('proof', T + TB, 'map_external_data, the step and linear lookups, the reload test and the reload meet their contracts for every table, '
            'time and previous value; numpy.interp/searchsorted are assumed contracts, data frames and the reset sequence are run bounded.'),
    'C09': ('proof', T + TB, 'is_mapped_var, add_df_idx and store_mappings meet their contracts for any tables, columns and names; '
            'how frames become arrays is run bounded.'),
    'C13': ('proof', T + TB, 'get_value with its nested sums, add_mapping, add_sum_mapping, +=, the value setter and namespace assignment meet '
            'their contracts for every acyclic graph of mappings; whether float() accepts an object is an assumed contract.'),
    'C14': ('proof', T + TB, 'register_item, add_port, register_namespace, create_binding, add_binding, bind and the typed container meet their '
            'contracts for every registry and name; ids are unique, what merging a binding does to mappings is left to C13.'),
    'C15': ('proof', T + TB, 'extend_path, update_variables_path over any tree of systems, item paths and get_item meet their contracts; '
            'names and ids are strings under concatenation, items form a tree.'),
    'C01': ('proof', T, 'in-degree counting, adjacency rows, Kahn\'s sort and Graph.topological_nodes meet their contracts for every graph, first and '
            'repeated call; naming the cycle for the message is an assumed contract, cached order data being current is C02.'),
    'C02': ('proof', T, 'adding, replacing, changing, removing and querying nodes and edges and copying a graph meet their contracts for every graph '
            'within its capacity with all end points given; made-up keys are not empty, drawing and sub-graphs are outside.'),
    'C04': ('proof', T + TB, 'every statement the interpreted builder appends means the assignment, sum, call or loop it was asked for, over any slots, '
            'for every number of sources, targets, arguments and elements; Python running the tree it is given is run bounded.'),
    'C05': ('proof', T + TB, 'every mapping and call the compiled builder emits, the loads and stores around them and the derivative output mean what '
            'the interpreted ones do; llvmlite instructions are assumed contracts, and LLVM itself is run bounded.'),
    'C16': ('proof', T + TB, 'names, logged names, columns, the refusal of shared names and the table lookup meet their contracts for any variables, '
            'levels and names; pandas frames are assumed contracts.'),
    'C19': ('proof', T + TB, 'building, resetting, cloning and loading put every part of the state a run changes back to its first value; the solver '
            'and class creation are assumed contracts and run bounded.'),
    'C18': ('proof', T + TB, 'collecting assignments and sum edges of any graph, the temporaries of equations and the sum nodes of scalar targets meet '
            'their contracts; graph queries are contracts of C02, sums over sets are run bounded.'),
    'C11': ('proof', T + TB, 'the generated condition and action functions, the names they close over, the numbering of events and the lookup of constant names meet '
            'their contracts for any number and order of events; tree walking, class creation and names put together are assumed or run bounded.'),
    'C12': ('proof', T + TB, 'actions of internal and external events and evaluation of conditions meet their contracts for any outcome of the action, '
            'variables and state positions; model updates (C03), class creation and the installed solver are assumed or run bounded.'),
    'C10': ('proof', T + TB, 'the csv loader meets its contract for every file, chunk size, request and history of requests; pandas.read_csv and '
            'concat are assumed contracts.'),
}
NA = {
    'C17': 'quantifies over programs: it needs a semantics of Python source and of the generated equation graph and a simulation proof of a '
           'translator over syntax trees of unbounded depth; contracts on the translator\'s functions in pyvc cannot express the value of a '
           'program held in a tree, and comparing sampled programs would be another technique (DESIGN.md, C17)',
    'C21': 'needs foreign FMU binaries and their descriptions; no contract within reach expresses the exchange across '
           'the C boundary and no FMU can be executed here',
}
ids = ['C%02d' % i for i in range(1, 22)]
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q pyvc contracts check.py || true', 'checks': [],
     'not_applicable': []}
for i in ids:
    if i in CLAIM:
        lv, t, note = CLAIM[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i,
                            'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
                            'technique': t, 'level': lv, 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check claimed yet')})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
