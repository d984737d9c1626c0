#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json (committed files; no check runs this)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'src/pdu_macro.rs'
FAM = ['src/%s.rs' % x for x in ('distributed_emissions', 'entity_information', 'entity_management', 'information_operations', 'logistics', 'minefield', 'radio_communications',
                                 'simulation_management', 'simulation_management_with_reliability', 'synthetic_environment', 'warfare')]
DT = 'src/common/data_types'
rows = []
checks = []


def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, note='', tech=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    rows.append(d)
    checks.append(dict(property=id, quick_cmd='./run.py %s' % id, thorough_cmd='./run.py %s --thorough' % id,
                       technique=tech or 'symbolic execution of the compiled code (LLVM IR of /repo, regenerated every run), every assertion decided by z3',
                       level='model_checking', level_note=note))


DEC = 'Bounded: proves the assertions for every input within the stated sizes, and nothing outside them. Trusts rustc/LLVM, the IR executor in /verif/engine (validated every run by executing its witnesses natively) and z3. '

P('C01', 'Decoding reads every field of every PDU from its place on the wire',
  'Decoding a buffer that starts with a complete PDU of a type gives a PDU in which every header field and every fixed or length-governed body field has the value found at its position in the DIS layout: big-endian, enumerations mapped by code, unknown codes to the default, optional parts present exactly when their length field is non-zero. This holds through both decoding entry points (with the header in the buffer, or already read). Lists of repeated records are outside this statement.',
  ['inputs'], 'every octet of the buffer, for each of the 66 PDU types and every shape within the bounds',
  'The tests decode one or two hand-written or default PDUs per type, mostly zero-filled, so swapped, narrowed or misplaced fields of equal value go unnoticed.',
  [M] + FAM, [('generated decoder', 'src/pdu_macro.rs define_pdu!'), ('record decoders', DT)], ['Pdu::deserialize', 'Pdu::deserialize_without_header'], note=DEC)
P('C02', 'Encoding writes every field of every PDU to its place on the wire',
  'Encoding any PDU value appends exactly the octets of the DIS layout of its type: header with the type and family of that PDU and its own length, then every field in order, big-endian, reserved octets zero, every element of every list, and length fields that govern a variable part set to its actual size. Nothing of a field is lost or replaced by zeros.',
  ['inputs'], 'every value of every field, for each of the 66 PDU types and every shape within the bounds',
  'The tests encode default values; most bytes compared are zero, and many PDU types are only checked for their length.',
  [M] + FAM, [('generated encoder', 'src/pdu_macro.rs define_pdu!'), ('record encoders', DT)], ['Pdu::serialize'], note=DEC)
P('C03', 'The length of a PDU is the number of octets it encodes to',
  'For every PDU value within the size limit, the calculated length, the length put in the header by finalizing or encoding, the length on the wire and the number of octets appended are all the same number, whatever the header said before. A PDU just decoded reports the length of the octets it was decoded from.',
  ['inputs'], 'every value and every combination of list sizes, variable lengths and optional parts within the bounds',
  'Tests compare the length of default PDUs with constants; lengths that depend on content (lists, padding, optional parts) are hardly exercised.',
  [M, DT], [('calculate_length', 'src/pdu_macro.rs'), ('FieldLen implementations', DT)], ['Pdu::calculate_length', 'Pdu::finalize', 'Pdu::serialize'], note=DEC)
P('C04', 'Decoding untrusted octets never panics and never reads past their end',
  'Decoding any sequence of octets as any PDU type ends in a PDU or an error, without panic, overflow or access outside the buffer, even when counts and lengths inside the octets are wrong. When octets of the header or of the fields of the PDU are missing the result is an underflow error; a complete PDU of the right type without content-sized parts is decoded.',
  ['inputs'], 'every octet and every number of octets from 0 to past the end of the fixed part, through both entry points',
  'No test feeds truncated or corrupt input to most PDU types; the space of wrong counts and truncation points cannot be sampled.',
  [M] + FAM + [DT], [('remaining-octets checks', 'src/pdu_macro.rs define_pdu!, check_remaining, try_deserialize_field')], ['Pdu::deserialize', 'Pdu::deserialize_without_header'], note=DEC)
P('C05', 'Encoding and decoding have no effect beyond their own octets',
  'Encoding appends to the buffer without touching what it holds, gives the same octets every time it is repeated, and does not depend on what is already in the buffer. Decoding consumes exactly the octets of the PDU, leaves what follows, gives the same result each time, and does not depend on how the input is split into chunks.',
  ['inputs', 'histories'], 'every PDU value and buffer within the bounds; repeated operations; split points of the input',
  'Tests always encode one PDU into an empty buffer and decode from one contiguous buffer that ends with the PDU.',
  [M, DT], [('buffer handling', 'src/pdu_macro.rs'), ('record codecs', DT)], ['bytes::BytesMut after serialize', 'bytes::Buf after deserialize'], note=DEC)
P('C06', 'A PDU type only decodes PDUs of its own type',
  'Decoding succeeds only when the type octet is the code of the requested PDU type; any other code, known or unknown, gives an invalid-header error, whether the header is in the buffer or was read before. Peeking at the type needs exactly a complete header, agrees with decoding, and the decoded PDU identifies as its own concrete type.',
  ['inputs'], 'all 256 type octets with every content of the rest, for each PDU type', 'Tests try one wrong type for a few PDUs, and never an unknown code.',
  [M, 'src/common/pdu_header.rs'], [('type check', 'src/pdu_macro.rs'), ('get_pdu_type', 'src/common/pdu_header.rs')], ['Pdu::deserialize', 'PduHeader::get_pdu_type', 'Pdu::as_any'], note=DEC)
P('C07', 'Headers survive encoding and decoding in all their bits',
  'Both kinds of PDU header decode every field from its position in 12 octets and encode it back there, keeping the padding octet and all status bits; unknown codes of version, type and family become their defaults. Setters and constructors change what they name and nothing else, and a new header is version 7.',
  ['inputs'], 'all contents of a header', 'Tests use a single header value.', ['src/common/pdu_header.rs', 'src/common/live_entity_pdu_header.rs', 'src/common/generic_header.rs'],
  [('GenericHeader implementations', 'src/common/pdu_header.rs, src/common/live_entity_pdu_header.rs')], note='Unbounded over all header contents. ' + DEC)
P('C08', 'Every status indicator lives in its own bits of the status octet',
  'Each indicator of the PDU status is read from its bits; setting one changes exactly those bits and reads back as set, and octet to record and back is the identity. Any sequence of settings ends in the octet that the same bit operations give.',
  ['inputs', 'histories'], 'all octets, all indicator values, sequences of settings up to the bound', 'Tests set one indicator at a time on an empty status and read that one back.',
  ['src/common/pdu_header.rs'], [('bit masks and shifts of PduStatusRecord', 'src/common/pdu_header.rs')], note=DEC)
P('C09', 'Every data record keeps its value through its own encoding',
  'Each record type encodes to the octets of its DIS layout and decodes, consuming exactly those octets, to the value they stand for; the length it reports is the number of octets it encodes to, and using it as a field of a PDU gives the same octets and value. Variable parts are written entirely, padded as the layout says, and read back by their counts.',
  ['inputs'], 'all contents of all 66 record types, variable parts of the sizes within the bounds', 'Few records have tests of their own, most with zero values.',
  [DT], [('serialize/deserialize of each record', DT), ('FieldSerialize/FieldDeserialize/FieldLen', DT)], note=DEC + 'Known findings: two gridded-data records swallow what follows them.')
P('C10', 'Enumerations map every known code to its value and back',
  'Decoding any enumeration from its octets gives the value with that code when there is one and the documented default otherwise, reading exactly its octets. Encoding a value writes its code in the same width, so known codes survive a round trip.',
  ['inputs'], 'all codes of the width of every enumeration', 'Tests touch a handful of codes of a handful of enumerations out of thousands.', ['src/common/enums.rs'],
  [('deserialize of each enumeration, discriminants', 'src/common/enums.rs')], note='Unbounded over all codes; value codes are pinned by the committed table. ' + DEC)
P('C11', 'PDUs over the maximum size are refused, and nothing is written',
  'The length of a PDU is calculated exactly when its encoding is at most 8192 octets; otherwise calculating gives a size error that names the size and the limit, and encoding fails leaving the buffer untouched. No length ever wraps around.',
  ['inputs'], 'lists of 0 to 2^28-1 elements in every PDU that has lists of fixed-size elements', 'Tests never build a large PDU, let alone one around the limit for each type.',
  [M, 'src/common/constants.rs'], [('size check in calculate_length', 'src/pdu_macro.rs'), ('MAX_PDU_SIZE_OCTETS', 'src/common/constants.rs')], ['Pdu::calculate_length', 'Pdu::serialize'], note=DEC)
P('C12', 'Flag sets keep every bit',
  'Flag sets decoded from the wire keep all their bits, defined or not, and encode to the same bits; each named flag is its bit of the standard. The checked conversion from an integer accepts exactly the defined bits and keeps them.',
  ['inputs'], 'all bit patterns', 'Tests use a few single flags.', ['src/common/enums.rs'], [('bitflags definitions and field traits', 'src/common/enums.rs')], note='Unbounded over all bit patterns. ' + DEC)
P('C13', 'Timestamps tell the time past the hour',
  'The timestamp of a new header is the time past the hour at some moment during the call, in the units the library uses (3600 s is about 2^31 units). Within an hour, later timestamps are never smaller than earlier ones.',
  ['inputs', 'schedules'], 'all clock readings, including second and hour boundaries falling between readings', 'Tests run at one arbitrary moment and only see that a number comes out.',
  ['src/common/pdu_header.rs', 'src/common/live_entity_pdu_header.rs'], [('calculate_dis_timestamp', 'src/common/pdu_header.rs')], ['PduHeader::calculate_dis_timestamp'],
  note=DEC + 'Tolerance 0.5% plus 0.5 ms; the clock is assumed not to go back.', tech='symbolic execution of the compiled code with a symbolic clock, assertions decided by z3 over an exact translation to linear integer arithmetic, and cvc5')
P('C14', 'Vector arithmetic is exact where floating point is exact',
  'Sum, difference, scalar product and quotient, dot and cross product of 3-vectors give the mathematical result whenever that is representable. Magnitude is the Euclidean length, and normalizing gives the direction with unit length, and fails only for the zero vector.',
  ['inputs'], 'integer vectors within the bounds; axis-parallel vectors over a wide range of magnitudes; a fixed set of directions', 'Tests use one or two vectors per operation.',
  [DT + '/vector3_float.rs'], [('operators and methods of Vector3Float', DT + '/vector3_float.rs')],
  note=DEC + 'Floating-point queries are hard for the solver: directions are a finite set selected symbolically, other operations are decided over bounded integers.')
P('C16', 'PDUs defined by users with the macro follow the same rules',
  'A PDU type defined with the public macro encodes its fields in declaration order behind its header and decodes to the same values, for all field types, optional fields and fields whose length is kept in another field. That length field is set from the content when encoding and governs decoding; a length it cannot hold gives an error and nothing is written, and truncated input gives an underflow error, never a panic.',
  ['programs', 'inputs'], 'ten definitions covering the forms the macro accepts, all lengths, all wire octets within the bounds', 'The built-in PDUs use only some of the forms, and tests reach no length that does not fit.',
  [M], [('define_pdu! and its helper macros', M)], note=DEC)
P('C17', 'A PDU survives being sent: encode, decode, encode gives the same octets',
  'What was encoded can be decoded, and encoding the result gives the same octets again, so that a PDU can be relayed without loss. This includes every optional or length-governed part and every list.',
  ['inputs'], 'every value of every field, for each PDU type and every shape within the bounds', 'The round-trip test in the repository covers default PDUs of a few types.',
  [M] + FAM + [DT], [('generated codecs', M)], ['Pdu::serialize', 'Pdu::deserialize'],
  note=DEC + 'Known findings: no list of repeated records is ever decoded; each PDU and list is recorded separately, and everything else of those PDUs is still decided.')
P('C18', 'Constructors keep their arguments and stamp new PDUs',
  'A record built by its constructor holds each argument in the field it names and zero in the rest; errors built by their constructors hold what they were given. A new PDU carries its type and family, version 7, exercise 1, no status and its own length, has empty lists, and encodes like the default one.',
  ['inputs'], 'all argument values; every PDU type', 'Tests construct few records, often with equal arguments, which hides swapped ones.', [DT, M, 'src/common/dis_error.rs'],
  [('new of each record', DT), ('new and default of PDUs', M)], note=DEC)
P('C19', 'Decoding asks for memory only in proportion to the octets there are',
  'While decoding any octets as any PDU type, no single request for memory exceeds a fixed allowance plus a small multiple of the octets actually received, whatever counts and lengths the octets claim. A short datagram cannot make the receiver reserve gigabytes or abort for lack of memory.',
  ['inputs'], 'every octet and every number of octets within the bounds, through both entry points',
  'An oversized reservation succeeds silently on a test machine; only specific corrupt counts cause it and no test looks at memory.',
  [M] + FAM + [DT], [('list and record decoding', 'src/pdu_macro.rs'), ('counts of variable-size records', DT)], ['Pdu::deserialize', 'Pdu::deserialize_without_header', 'the global allocator'], note=DEC)
P('C20', 'Values compare, copy and default by their contents',
  'Two values of a type that can be compared (enumerations, flag sets, headers, the status record, entity identifiers, entity types, simulation addresses, vectors, grid contents) are equal exactly when all their contents are. A copy of any record holds everything the original holds, and a default record holds zeros, empty lists and default enumeration values (site and application 1 in a simulation address).',
  ['inputs'], 'every pair of values of each comparable type; every value of every record within the bounds',
  'Tests compare and copy a few constants; an equality that ignores one field or a copy that drops a list passes all of them.',
  ['src/common/enums.rs', 'src/common/pdu_header.rs', 'src/common/live_entity_pdu_header.rs', DT], [('PartialEq, Clone and Default of the data types', DT)], ['==', 'clone', 'default'], note=DEC)
open(R + '/properties.jsonl', 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
               notes='No hooks: harnesses use the public API only. Exit 2 means no answer (build failure, solver timeout or unsupported construct), never a verdict.'),
          open(R + '/MANIFEST.json', 'w'), indent=1)
