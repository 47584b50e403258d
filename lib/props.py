"""What decides each property: Verus groups (proof), and the bounded search that stands in / finds inputs."""
# groups: Verus groups whose functions, lemmas and theorems carry the property (by their @prop / @thm tags)
PROPS = {
 'C01': dict(groups=['varint']),
 'C02': dict(groups=['encode', 'decode', 'values', 'encoder', 'doc']),
 'C03': dict(groups=['varint', 'encode', 'decode', 'values', 'encoder', 'doc']),
 'C04': dict(groups=['varint', 'encode', 'tree', 'encoder', 'decode', 'doc', 'copy']),
 'C05': dict(groups=['tree', 'encoder', 'copy']),
 'C06': dict(groups=['varint', 'decode']),
 'C07': dict(groups=['varint', 'decode']),
 'C08': dict(groups=['decode', 'doc']),
 'C09': dict(groups=['tree', 'encoder', 'decode', 'doc', 'shared_keys']),
 'C10': dict(groups=['shared_keys', 'ser']),
 'C11': dict(groups=['shared_keys', 'state', 'decode', 'encoder']),
 'C12': dict(groups=['scope', 'encoder', 'decode']),
 'C13': dict(groups=['mutable', 'encode', 'decode', 'doc']),
 'C14': dict(groups=['mutable', 'encode', 'decode', 'doc', 'shared_keys']),
 'C15': dict(groups=['ser', 'de', 'encode', 'encoder', 'decode', 'doc', 'varint', 'tree']),
 'C16': dict(groups=['decode', 'values']),
}
for c in PROPS.values():
    c.setdefault('level', 'proof' if c['groups'] else 'exploration')
    if c['groups']:
        c.setdefault('technique', 'contract-based deductive verification (Verus) of functions extracted from /repo/src on every run; bounded search replays failures')
        c.setdefault('note', 'Proved: the contracts of groups %s on the extracted real functions. Trusted: the contracts listed in the evidence file as trusted_base (standard library, byte-slice reinterpretation). What is not under contract (see DESIGN.md) is only searched, with the bounds in the evidence file.' % ', '.join(c['groups']))
