"""Unique names where things are registered, one item per binding, registered ports, typed containers."""
from pyvc.spec import *

EXPLAIN = 'Subsystem.register_item / add_port / register_items, Item.register_namespace, Connector.create_binding, Binding.add_binding, ConnectorItem.bind ' \
          'and _DictWrapper.__setitem__/update/pop/keys/__getitem__ against contracts: refusal exactly when the name is taken (or missing, or of another type), nothing changed by a refusal.'
ASSUME = ['ids of items are unique (uuid)', 'registered_items, bindings, ports and namespaces are used as dictionaries; their wrapper _DictWrapper is under contract itself',
          'object attributes of _DictWrapper are found by the normal rules (no entry is named like one of its own methods)',
          'what registration does to variable names is under C15; here only that it touches no registry']
SY = 'numerous.engine.system.'


def build(reg):
    # the typed container
    reg.refs['DW'] = RefClass(dict(shadow_dict=TDict(Str, TAny()), internal_dict=TDict(Str, TAny()), value_type=TAny()), construct=False)
    D = TRef('DW')
    reg.classes['DW'] = 'numerous.utils.dict_wrapper:_DictWrapper'
    W = 'numerous.utils.dict_wrapper:_DictWrapper.'
    ok = "app('isinstance_of', Bool, value, self.value_type)"
    unch = 'same(self.shadow_dict, old(self.shadow_dict)) and same(self.internal_dict, old(self.internal_dict))'
    has = 'key in self.{0} and same(self.{0}[key], value) and all(implies(k!=key, iff(k in self.{0}, k in old(self.{0})) and implies(k in self.{0}, same(self.{0}[k], old(self.{0})[k]))) for k in strs())'
    reg.contract(W + '__setitem__', params=dict(self=D, key=Str, value=TAny()), modifies=['self.shadow_dict', 'self.internal_dict'],
                 raises=[('ValueError', 'not ' + ok, 'iff')], raise_ensures=[('nothing-changes', unch)],
                 ensures=[('entry-stored', has.format('shadow_dict')), ('attribute-stored', has.format('internal_dict'))])
    reg.contract(W + '__getitem__', params=dict(self=D, y=Str), ret=TAny(), raises=[('KeyError', 'y not in self.shadow_dict', 'iff')],
                 ensures=[('the-entry', 'same(result, self.shadow_dict[y])')])
    reg.contract(W + 'pop', params=dict(self=D, item=Str), modifies=['self.shadow_dict'],
                 ensures=[('only-that-entry-goes', 'all(iff(k in self.shadow_dict, k in old(self.shadow_dict) and k!=item) and implies(k in self.shadow_dict, same(self.shadow_dict[k], old(self.shadow_dict)[k])) for k in strs())')])
    okk = "app('isinstance_of', Bool, {v}, self.value_type)"
    done = 'all(iff(k in self.{0}, k in old(self.{0}) or k in E and posof(E, k)<_k) and implies(k in self.{0}, same(self.{0}[k], E[k] if k in E and posof(E, k)<_k else old(self.{0})[k])) for k in strs())'
    reg.contract(W + 'update', params=dict(self=D, E=TDict(Str, TAny()), F=TDict(Str, TAny())), requires=[('one-argument', 'len(F)==0')],
                 modifies=['DW.shadow_dict', 'DW.internal_dict'],
                 raises=[('ValueError', 'any(not %s for v in E.values())' % okk.format(v='v'), 'iff')],
                 ensures=[('other-containers-kept', "forall(lambda d: implies(refid(d)!=refid(self), same(d.shadow_dict, old(d.shadow_dict)) and same(d.internal_dict, old(d.internal_dict))), T='DW')"),
                          ('entries-stored', done.format('shadow_dict').replace(' and posof(E, k)<_k', '')), ('attributes-stored', done.format('internal_dict').replace(' and posof(E, k)<_k', ''))],
                 loops=[LoopSpec([done.format('shadow_dict'), done.format('internal_dict'), 'all(%s for j in range(_k))' % okk.format(v='E[keyat(E, j)]'),
                                  "forall(lambda d: implies(refid(d)!=refid(self), same(d.shadow_dict, old(d.shadow_dict)) and same(d.internal_dict, old(d.internal_dict))), T='DW')"])])

    # systems
    I, N, B = TRef('It'), TRef('Ns'), TRef('Bind')
    reg.refs['Ns'] = RefClass(dict(tag=Str, id=Str, registered=Bool), construct=False)
    reg.refs['Bind'] = RefClass(dict(name=Str, binded_item=TOpt(I), ns=TDict(Str, N)), qual=SY + 'binding:Binding')
    reg.refs['It'] = RefClass(dict(tag=Str, id=Str, level=Int, path=TList(Str), parent_item=TOpt(I), registered_items=TDict(Str, I), ports=TDict(Str, I),
                                   registered_namespaces=TDict(Str, N), bindings=TDict(Str, B)), qual=SY + 'subsystem:Subsystem', construct=False)
    reg.classes['It'] = SY + 'subsystem:Subsystem'
    reg.classes['Bind'] = SY + 'binding:Binding'
    reg.contract(SY + 'subsystem:Subsystem.update_variables_path', params=dict(self=I, item=I, tail=TList(I)), modifies=['It.path'],
                 trusted='names of variables only (proved under C15)')
    reg.contract(SY + 'connector:Connector.__setattr__', params=dict(self=I, key=Str, value=TAny()), trusted='assigning an attribute that is no binding is a plain assignment',
                 effect=lambda v, env: v.setattr(env['self'], env['key'], env['value'], declared=False))
    reg.contract(SY + 'item:Item._increase_level', params=dict(self=I), modifies=['self.level'], ensures=[('one-deeper', 'self.level==old(self.level)+1')])
    reg.contract(SY + 'subsystem:Subsystem._increase_level', params=dict(self=I), modifies=['It.level'], ensures=[], loops=[LoopSpec([])])
    UNIQ = 'all(implies(a!=b and a in self.registered_items and b in self.registered_items, self.registered_items[a].tag!=self.registered_items[b].tag) for a in strs() for b in strs())'
    BYID = 'all(self.registered_items[a].id==a for a in self.registered_items)'
    taken = 'any(c.tag==item.tag for c in {0}(self.registered_items).values())'
    keep = 'all(implies(k!=item.id, iff(k in self.registered_items, k in old(self.registered_items)) and implies(k in self.registered_items, refid(self.registered_items[k])==refid(old(self.registered_items)[k]))) for k in strs())'
    reg.contract(SY + 'subsystem:Subsystem.register_item', params=dict(self=I, item=I),
                 requires=[('unique-so-far', UNIQ), ('kept-by-id', BYID)],
                 modifies=['self.registered_items', 'item.parent_item', 'It.level', 'It.path'],
                 raises=[('ValueError', taken.format(''), 'iff')],
                 raise_ensures=[('nothing-changes', "same(self.registered_items, old(self.registered_items)) and isnone(item.parent_item)==isnone(old(item.parent_item)) and forall(lambda i: i.level==old(i.level) and same(i.path, old(i.path)), T='It')")],
                 ensures=[('registered', 'item.id in self.registered_items and refid(self.registered_items[item.id])==refid(item)'), ('others-kept', keep),
                          ('names-stay-unique', UNIQ), ('kept-by-id', BYID)],
                 loops=[LoopSpec([])])
    reg.contract(SY + 'subsystem:Subsystem.add_port', params=dict(self=I, port_tag=Str, item=I), requires=[],
                 modifies=['self.ports'], raises=[('ValueError', 'item.id not in self.registered_items', 'iff')], raise_ensures=[('nothing-changes', 'same(self.ports, old(self.ports))')],
                 ensures=[('port-is-the-item', 'port_tag in self.ports and refid(self.ports[port_tag])==refid(item)'),
                          ('other-ports-kept', 'all(implies(k!=port_tag, iff(k in self.ports, k in old(self.ports)) and implies(k in self.ports, refid(self.ports[k])==refid(old(self.ports)[k]))) for k in strs())')])
    nkeep = 'all(implies(k!={t}, iff(k in self.{d}, k in old(self.{d})) and implies(k in self.{d}, refid(self.{d}[k])==refid(old(self.{d})[k]))) for k in strs())'
    reg.contract(SY + 'item:Item.register_namespace', params=dict(self=I, namespace=N), modifies=['self.registered_namespaces', 'namespace.registered'],
                 raises=[('ValueError', 'namespace.registered or namespace.tag in self.registered_namespaces', 'iff')],
                 raise_ensures=[('nothing-changes', 'same(self.registered_namespaces, old(self.registered_namespaces)) and namespace.registered==old(namespace.registered)')],
                 ensures=[('registered', 'namespace.tag in self.registered_namespaces and refid(self.registered_namespaces[namespace.tag])==refid(namespace) and namespace.registered'),
                          ('others-kept', nkeep.format(t='namespace.tag', d='registered_namespaces'))])
    reg.contract(SY + 'binding:Binding.__init__', params=dict(self=B, binding_name=Str), modifies=['self.name', 'self.binded_item', 'self.ns'], trusted='builds an empty typed container around its own attributes',
                 ensures=[('empty', 'self.name==binding_name and isnone(self.binded_item)')])
    reg.contract(SY + 'connector:Connector.create_binding', params=dict(self=I, binding_name=Str), modifies=['self.bindings'],
                 raises=[('ValueError', 'binding_name in self.bindings', 'iff')], raise_ensures=[('nothing-changes', 'same(self.bindings, old(self.bindings))')],
                 ensures=[('new-binding', 'binding_name in self.bindings and self.bindings[binding_name].name==binding_name and isnone(self.bindings[binding_name].binded_item)'),
                          ('others-kept', nkeep.format(t='binding_name', d='bindings'))])
    reg.contract(SY + 'binding:Binding.__merge_namespaces', params=dict(self=B), modifies=['Bind.ns'], trusted='mappings recorded on the binding move to the item\'s own variables (frame only; mappings: C13)')
    reg.contract(SY + 'binding:Binding.add_binding', params=dict(self=B, item=I), modifies=['self.binded_item', 'Bind.ns'],
                 raises=[('ValueError', 'not isnone(self.binded_item)', 'iff')],
                 raise_ensures=[('first-item-stays', 'not isnone(self.binded_item) and refid(some(self.binded_item))==refid(some(old(self.binded_item)))')],
                 ensures=[('bound', 'not isnone(self.binded_item) and refid(some(self.binded_item))==refid(item)')])
    reg.contract(SY + 'connector_item:ConnectorItem.__bind_mappings', params=dict(self=I, binding=B, binded_item=I), modifies=[], trusted='replaces mappings to the binding\'s variables (mappings: C13)')
    KW = 'all(implies(k in kwargs and posof(kwargs, k)<%s, k in self.bindings and not isnone(self.bindings[k].binded_item) and refid(some(self.bindings[k].binded_item))==refid(kwargs[k])) for k in strs())'
    FREE = 'any(k not in self.bindings or not isnone(old(self.bindings[k].binded_item)) for k in kwargs)'
    reg.contract(SY + 'connector_item:ConnectorItem.bind', params=dict(self=I, kwargs=TDict(Str, I)), modifies=['Bind.binded_item', 'Bind.ns'],
                 requires=[('a-binding-per-name', 'all(implies(a!=b and a in self.bindings and b in self.bindings, refid(self.bindings[a])!=refid(self.bindings[b])) for a in strs() for b in strs())')],
                 raises=[('ValueError', 'any(k not in self.bindings or not isnone(self.bindings[k].binded_item) for k in kwargs)', 'iff')],
                 raise_ensures=[('bound-items-stay', "forall(lambda b: implies(not isnone(old(b.binded_item)), not isnone(b.binded_item) and refid(some(b.binded_item))==refid(some(old(b.binded_item)))), T='Bind')")],
                 ensures=[('all-bound', KW % 'len(kwargs)')],
                 loops=[LoopSpec([KW % '_k',
                                  "forall(lambda b: implies(not isnone(old(b.binded_item)), not isnone(b.binded_item) and refid(some(b.binded_item))==refid(some(old(b.binded_item)))), T='Bind')",
                                  'all(keyat(kwargs, j) in self.bindings and isnone(old(self.bindings[keyat(kwargs, j)].binded_item)) for j in range(_k))',
                                  "forall(lambda b: implies(all(refid(self.bindings[keyat(kwargs, j)])!=refid(b) for j in range(_k)), isnone(b.binded_item)==isnone(old(b.binded_item))), T='Bind')"])])
