"""Names of variables as seen from every enclosing system, and looking items up by path."""
from pyvc.spec import *

EXPLAIN = 'VariablePath.extend_path, namespace registration, Subsystem.update_variables_path / register_item over any tree of systems ' \
          '(ghost ancestry), ItemPath parsing and Item/Subsystem.get_item against contracts; names are strings under concatenation.'
ASSUME = ['ids of systems, items, namespaces and variables are unique (uuid) and the concatenation of two ids determines them',
          'str.split and str.join are library functions; items form a tree when registered']
V = 'numerous.engine.variables:'
SY = 'numerous.engine.system.'


def build(reg):
    P = TRef('Path')
    reg.refs['Path'] = RefClass(dict(path=TDict(Str, TList(Str)), primary_path=Str, used_id_pairs=TList(Str)), construct=False)
    reg.classes['Path'] = V + 'VariablePath'
    used = 'any(old(self.used_id_pairs)[u]==current_id+new_id for u in range(len(old(self.used_id_pairs))))'
    n0 = '(len(old(self.path)[new_id]) if new_id in old(self.path) else 0)'
    reg.contract(V + 'VariablePath.extend_path', params=dict(self=P, current_id=Str, new_id=Str, new_tag=Str),
                 requires=[('a-name-to-extend', 'current_id in self.path and len(self.path[current_id])>0'), ('upwards', 'current_id!=new_id')],
                 modifies=['self.path', 'self.used_id_pairs', 'self.primary_path'],
                 ensures=[('known-there', 'implies(not %s, new_id in self.path)' % used),
                          ('extended-names-added', 'implies(not {u}, len(self.path[new_id])=={n}+len(old(self.path)[current_id]) and '
                           'all(self.path[new_id][{n}+k]==new_tag+"."+old(self.path)[current_id][k] for k in range(len(old(self.path)[current_id]))))'.format(u=used, n=n0)),
                          ('earlier-names-kept', 'implies(new_id in old(self.path), new_id in self.path and len(self.path[new_id])>=%s and all(self.path[new_id][k]==old(self.path)[new_id][k] for k in range(%s)))' % (n0, n0)),
                          ('same-pair-adds-nothing', 'implies(%s, iff(new_id in self.path, new_id in old(self.path)) and implies(new_id in self.path, len(self.path[new_id])==%s))' % (used, n0)),
                          ('other-levels-kept', 'all(implies(i!=new_id, iff(i in self.path, i in old(self.path)) and implies(i in self.path, len(self.path[i])==len(old(self.path)[i]) and all(self.path[i][k]==old(self.path)[i][k] for k in range(len(self.path[i]))))) for i in strs())'),
                          ('pairs-kept', 'len(self.used_id_pairs)==len(old(self.used_id_pairs))+(0 if %s else 1) and all(self.used_id_pairs[u]==old(self.used_id_pairs)[u] for u in range(len(old(self.used_id_pairs))))' % used),
                          ('pair-remembered', 'any(self.used_id_pairs[u]==current_id+new_id for u in range(len(self.used_id_pairs)))')])
    # paths of items
    IP = TObj('ItemPath', path=Str, delimiter=Str, path_parsed=TList(Str))
    reg.classes['ItemPath'] = SY + 'item_path:ItemPath'
    reg.fields[('ItemPath', 'path')] = Str
    reg.fields[('ItemPath', 'path_parsed')] = TList(Str)
    eqs = 'len(self.path_parsed)==len({0}) and all(self.path_parsed[k]=={0}[k] for k in range(len({0})))'
    PARSED = [('parsed', eqs.format('self.path.split(self.delimiter)')), ('something', 'len(self.path_parsed)>=1')]
    reg.fn('REST', [('p', Str), ('d', Str)], Str, "app('REST', Str, p, d)")
    RD = [('rest-is', "forall(lambda p, d: REST(p, d)==d.join(p.split(d)[1:]), T='Str Str', pat=REST(p, d))")]
    reg.contract(SY + 'item_path:ItemPath.get_top_item', params=dict(self=IP), requires=PARSED[1:], ret=Str,
                 ensures=[('first-name', 'result==self.path_parsed[0]')])
    reg.contract(SY + 'item_path:ItemPath.get_next_item_path', params=dict(self=IP), requires=PARSED + RD, ret=TOpt(IP),
                 ensures=[('nothing-below', 'iff(isnone(result), len(self.path_parsed)==1)'),
                          ('rest-of-the-path', 'isnone(result) or (some(result).path==REST(self.path, self.delimiter) and some(result).delimiter==self.delimiter)'),
                          ('rest-is-parsed', 'isnone(result) or (%s)' % eqs.replace('self.path_parsed', 'some(result).path_parsed').format('some(result).path.split(some(result).delimiter)'))])
    # items by path
    I = TRef('It')
    reg.refs['It'] = RefClass(dict(tag=Str, id=Str, registered_items=TDict(Str, TRef('It'))), qual=SY + 'subsystem:Subsystem', construct=False)
    reg.classes['It'] = SY + 'subsystem:Subsystem'
    for f in ('FOUND', 'FOUNDL'):
        reg.fn(f, [('i', I), ('p', Str), ('d', Str)], Bool, "app('%s', Bool, i, p, d)" % f)
    for f in ('WHO', 'WHOL'):
        reg.fn(f, [('i', I), ('p', Str), ('d', Str)], Int, "app('%s', Int, i, p, d)" % f)
    q = 'p.split(d)'
    below = '{c}.tag==p.split(d)[1]'
    DEF = [('lookup-is', "forall(lambda i, p, d: FOUND(i, p, d)==(p.split(d)[0]==i.tag and (len(p.split(d))<=1 or any(c.tag==REST(p, d).split(d)[0] and FOUNDL(c, REST(p, d), d) for c in i.registered_items.values()))), T='It Str Str', pat=FOUND(i, p, d))"),
           ('lookup-gives-itself', "forall(lambda i, p, d: implies(FOUND(i, p, d) and len(p.split(d))<=1, WHO(i, p, d)==refid(i)), T='It Str Str', pat=FOUND(i, p, d))"),
           ('lookup-gives-child', "forall(lambda i, p, d: implies(FOUND(i, p, d) and len(p.split(d))>1, all(implies(c.tag==REST(p, d).split(d)[0], WHO(i, p, d)==WHOL(c, REST(p, d), d)) for c in i.registered_items.values())), T='It Str Str', pat=FOUND(i, p, d))"),
           ('same-lookup', "forall(lambda i, p, d: FOUND(i, p, d)==FOUNDL(i, p, d) and WHO(i, p, d)==WHOL(i, p, d), T='It Str Str', pat=FOUND(i, p, d))"),
           ('one-item-per-name', "forall(lambda i: all(implies(a!=b and a in i.registered_items and b in i.registered_items, i.registered_items[a].tag!=i.registered_items[b].tag) for a in strs() for b in strs()), T='It')")]
    PA = [(a, x.replace('self.', 'item_path.')) for a, x in PARSED]
    POST = [('found-exactly-when-there', 'iff(not isnone(result), FOUND(self, item_path.path, item_path.delimiter))'),
            ('the-item-at-that-path', 'implies(not isnone(result), refid(some(result))==WHO(self, item_path.path, item_path.delimiter))')]
    reg.contract(SY + 'subsystem:Subsystem.get_item', params=dict(self=I, item_path=IP), requires=PA + RD + DEF, ret=TOpt(I), ensures=POST,
                 loops=[LoopSpec(['all(self.registered_items[keyat(self.registered_items, j)].tag!=next_item_path.path_parsed[0] for j in range(_k))'],
                                use_start="check(all(implies(c.tag==item.tag, refid(c)==refid(item)) for c in self.registered_items.values()), 'that-name-once')")])
    reg.contract(SY + 'item:Item.get_item', params=dict(self=I, item_path=IP), requires=PA + RD + DEF + [('plain-item', 'len(self.registered_items)==0')], ret=TOpt(I), ensures=POST)

    # registration: names from every system above
    reg.refs['PV'] = RefClass(dict(id=Str, tag=Str, path=P), construct=False)
    reg.refs['Ns'] = RefClass(dict(id=Str, tag=Str, variables=TDict(Str, TRef('PV'))), construct=False)
    reg.refs['It'].fields.update(registered_namespaces=TDict(Str, TRef('Ns')), path=TList(Str))
    for f, t in (('ITEMOF', Int), ('NSKEY', Str), ('VKEY', Str)):
        reg.fn(f, [('p', P)], t, "app('%s', %s, p)" % (f, 'Int' if t is Int else 'Str'))
    reg.fn('UNDER', [('i', I), ('p', P)], Bool, "app('UNDER', Bool, i, p)")
    reg.fn('CHKEY', [('i', I), ('p', P)], Str, "app('CHKEY', Str, i, p)")
    TREE = [('own-variables', "forall(lambda i: all(all(ITEMOF(w.path)==refid(i) and NSKEY(w.path)==k and VKEY(w.path)==m and UNDER(i, w.path) for m, w in n.variables.items()) for k, n in i.registered_namespaces.items()), T='It')"),
            ('own-variables-only', "forall(lambda i, p: implies(ITEMOF(p)==refid(i) and UNDER(i, p), NSKEY(p) in i.registered_namespaces and VKEY(p) in i.registered_namespaces[NSKEY(p)].variables and "
             "refid(i.registered_namespaces[NSKEY(p)].variables[VKEY(p)].path)==refid(p)), T='It Path', pat=UNDER(i, p))"),
            ('below', "forall(lambda i, p: implies(UNDER(i, p) and ITEMOF(p)!=refid(i), CHKEY(i, p) in i.registered_items and UNDER(i.registered_items[CHKEY(i, p)], p)), T='It Path', pat=UNDER(i, p))"),
            ('tree', "forall(lambda i, p: all(implies(UNDER(c, p), ITEMOF(p)!=refid(i) and CHKEY(i, p)==k and UNDER(i, p)) for k, c in i.registered_items.items()), T='It Path')"),
            ('own-ids', "forall(lambda i: all(c.id!=i.id for c in i.registered_items.values()), T='It')")]
    pair = 'any(p.used_id_pairs[u]==%s for u in range(len(p.used_id_pairs)))'
    root, sec = '(tail[0].{0} if len(tail)>0 else self.{0})', '(tail[1].id if len(tail)>1 else self.id if len(tail)==1 else item.id)'
    ROOT = root.format('id')
    SAMEP = 'same(p.path, old(p.path)) and same(p.used_id_pairs, old(p.used_id_pairs))'
    DONE = ('{r} in p.path and len(p.path[{r}])==len(old(p.path)[{s}]) and all(p.path[{r}][k]=={t}+"."+old(p.path)[{s}][k] for k in range(len(p.path[{r}])))'
            ' and all(implies(i!={r}, iff(i in p.path, i in old(p.path)) and implies(i in p.path, same(p.path[i], old(p.path)[i]))) for i in strs())'
            ).format(r=ROOT, s=sec, t=root.format('tag'))
    VP = DONE.replace('(p.path', '(var.path.path').replace(' p.path', ' var.path.path').replace('=p.path', '=var.path.path')
    D3 = [x if x.startswith('all') or ' in ' not in x else x for x in VP.split(' and all(')]
    D3 = [D3[0]] + ['all(' + x for x in D3[1:]]

    def state(done):
        return "forall(lambda p: (%s) if (%s) else (%s), T='Path')" % (DONE, done, SAMEP)
    PRE = TREE + [('registered-bottom-up', "forall(lambda p: implies(UNDER(item, p), %s in p.path and len(p.path[%s])>0 and item.id in p.path and len(p.path[item.id])>0 and not (%s in p.path) and not %s), T='Path')"
                   % (sec, sec, ROOT, pair % (sec + '+' + ROOT))),
                  ('nested-already-named', "implies(len(tail)>0, forall(lambda p: implies(UNDER(item, p), %s), T='Path'))" % (pair % 'item.id+self.id')),
                  ('below-already-named', "forall(lambda i, p: implies(UNDER(item, p), all(implies(UNDER(c, p), c.id in p.path and len(p.path[c.id])>0 and %s) for c in i.registered_items.values())), T='It Path')" % (pair % 'c.id+i.id')),
                  ('another-system', 'item.id!=self.id'),
                  ]
    reg.contract(SY + 'subsystem:Subsystem.update_variables_path', params=dict(self=I, item=I, tail=TList(I)),
                 requires=PRE, modifies=['Path.path', 'Path.used_id_pairs', 'Path.primary_path', 'It.path'],
                 ensures=[('named-from-the-top-system', state('UNDER(item, p)'))],
                 loops=[LoopSpec([state('ITEMOF(p)==refid(item) and UNDER(item, p) and posof(item.registered_namespaces, NSKEY(p))<_a')], index='_a'),
                        LoopSpec([state('ITEMOF(p)==refid(item) and UNDER(item, p) and (posof(item.registered_namespaces, NSKEY(p))<_a_outer or posof(item.registered_namespaces, NSKEY(p))==_a_outer and posof(ns.variables, VKEY(p))<_b)')], index='_b',
                                use_start="check(ITEMOF(var.path)==refid(item) and UNDER(item, var.path) and NSKEY(var.path)==keyat(item.registered_namespaces, _a_outer) and VKEY(var.path)==keyat(ns.variables, _b), 'where-it-is'); "
                                          "check(same(var.path.path, old(var.path.path)) and same(var.path.used_id_pairs, old(var.path.used_id_pairs)), 'not-named-yet'); "
                                          "check(%s in var.path.path and %s not in var.path.path and not %s, 'to-be-named')" % (sec, ROOT, (pair % (sec + '+' + ROOT)).replace('p.used', 'var.path.used'))),
                        LoopSpec([state('UNDER(item, p) and (ITEMOF(p)==refid(item) or posof(item.registered_items, CHKEY(item, p))<_c)')], index='_c')])
    reg.contract(SY + 'connector:Connector.__setattr__', params=dict(self=I, key=Str, value=TList(Str)), trusted='assigning an attribute that holds no binding is a plain assignment (bindings: C14)',
                 effect=lambda v, env: v.setattr(env['self'], env['key'], env['value'], declared=False))
