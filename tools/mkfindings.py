#!/usr/bin/env python3
"""one-off: writes /verif/known_findings.json (a committed file; no check runs this)"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(R + '/spec/pdus.json'))
fs = []
for n, d in P.items():
    for f, sp, _ in d['fields']:
        if sp.startswith('vec:') and f != 'padding':
            fs.append(dict(id='L-%s-%s' % (n, f), property='C17', harness=r'c17_%s_v\d+' % n,
                           label=re.escape('%s.%s: elements survive a round trip' % (n, f)),
                           what='%s: the elements of the list `%s` are written by encoding but never read back by decoding (the decoded list is empty)' % (n, f)))
for r, dec, what in (('GridAxisDescriptor', r'', 'an irregular axis takes every octet left in the buffer as its padding, including what follows the record'),
                     ('GridDataRecord', r'', 'representation types 0 and 1 take every octet left in the buffer as padding, including what follows the record')):
    fs.append(dict(id='G-' + r, property='C09', harness=r'c09_%s_dec\d+_t' % r,
                   label=re.escape('%s: exactly its octets are consumed (shape: ' % r) + r'.*grid type %s\)' % ('1' if r == 'GridAxisDescriptor' else '[01]'),
                   what='%s: %s' % (r, what)))
FIX = '''c0dc40c C16 a PDU defined with a length-governed field followed by others panicked when the octets after that field were missing
5ea7fc3 C04 a counted record (variable datum, record specification, attribute set, standard variables ...) with a count beyond the buffer panicked
2a5b7ec C09 VariableTransmitterParameters read a 32-bit record type from 8 bits, misplacing everything after it
1d27a85 C09 GridDataRecord wrote its 16-bit sample type and data representation as 8 bits
3124a0e C06 deserialize_without_header accepted a header of any other PDU type
634b8e9 C04 truncated PDUs panicked instead of returning an error
b75ed18 C01 the antenna pattern of a Transmitter PDU ignored its length field (also C02)
588bada C16 a length that does not fit in its length field was silently truncated
047f407 C11 PDUs larger than the maximum size were encoded, with a wrapped length
1c583b6 C13 the timestamp read the clock twice and could jump back across a second or hour boundary
9f0a9fe C12 FrozenBehavior and ObjectStateAppearanceGeneral lost undefined bits on decoding
bebfc75 C09 RecordSpecificationElement: overflow of record_length*record_count and out-of-bounds access (also C04)
e53aea1 C09 VariableDatumRecord values were decoded with wrong sizes, padding not consumed nor counted
b8f481e C09 EntityMarking: the string was not encoded/decoded as 11 octets
81b4a00 C09 DeadReckoningParameters wrote zeros for its other parameters
591d7ca C09 SimulationIdentifier wrote zero for its reference number (also C02)'''
fx = ['fixed: property=%s %s %s' % (l.split()[1], l.split()[0], l.split(' ', 2)[2]) for l in FIX.splitlines()]
json.dump(dict(findings=fs, fixed=fx), open(R + '/known_findings.json', 'w'), indent=1)
print(len(fs), len(fx))
