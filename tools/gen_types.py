#!/usr/bin/env python3
"""Development tool (not run by any check): writes harness/ref/types_gen.go, the reference table of
structure fields (cross-checked against the OPC Foundation schema) and binary encoding ids."""
import re, xml.etree.ElementTree as ET
src = open('/repo/ua/structs.generated.go').read()
ids = dict(re.findall(r'\bObjectID(\w+)EncodingDefaultBinary\s+NodeID\s*=\s*NewNodeIDNumeric\(0,\s*(\d+)\)', open('/repo/ua/nodeids.generated.go').read()))
structs = {}
for m in re.finditer(r'type (\w+) struct \{\n(.*?)\n?\}', src, re.S):
    fs = []
    for l in m.group(2).splitlines():
        l = l.strip()
        if l: fs.append(tuple(l.split(None, 1)))
    structs[m.group(1)] = fs
reg = re.findall(r'RegisterBinaryEncodingID\(reflect.TypeOf\(\(\*(\w+)\)\(nil\)\).Elem\(\), NewExpandedNodeID\(ObjectID(\w+)EncodingDefaultBinary\)', src)
ns = {'o': 'http://opcfoundation.org/BinarySchema/'}
bsd = {}
norm = lambda s: s.lower()
for st in ET.parse('/repo/schema/Opc.Ua.Types.bsd').getroot().findall('o:StructuredType', ns):
    fields = st.findall('o:Field', ns)
    lens = {f.get('LengthField') for f in fields if f.get('LengthField')}
    bsd[norm(st.get('Name'))] = [norm(f.get('Name')) for f in fields if f.get('Name') not in lens and f.get('SourceType') is None or (f.get('Name') not in lens and f.get('SourceType'))]
bad = 0
for n, fs in structs.items():
    b = bsd.get(norm(n))
    if b is None: print('not in schema', n); continue
    g = [norm(f[0]) for f in fs]
    if g != b: bad += 1; print('DIFF', n, g, b)
print(len(structs), len(reg), 'diffs', bad, [x for x in reg if x[0]!=x[1]], [x for x in structs if x not in dict(reg)])
out = ['// Code generated by tools/gen_types.py; DO NOT EDIT.', '', 'package ref', '', 'import (', '\t"reflect"', '', '\t"github.com/awcullen/opcua/ua"', ')', '', 'var structTable = []StructInfo{']
for n, fs in structs.items():
    i = ids.get(n, '0') if n in dict(reg) else '0'
    out.append('\t{reflect.TypeOf(ua.%s{}), %s, []string{%s}},' % (n, i, ', '.join('"%s"' % f[0] for f in fs)))
out.append('}')
open('/verif/harness/ref/types_gen.go', 'w').write('\n'.join(out) + '\n')
