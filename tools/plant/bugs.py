U = 'use bytes::{Buf, BufMut, BytesMut};\nuse open_dis_rust::common::{GenericHeader, Pdu, SerializedLength};\n'
A = '#![allow(unused_imports)]\n'
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=A + U + demo))


DT = 'common/data_types/'

bug('beam-targets-cap', 'C09', 'a beam with more than 10 track/jam targets',
    'Decoding an emitter beam stops after 10 track/jam targets although the record says there are more; the rest is lost and left in the buffer.',
    [(DT + 'electromagnetic_emission_beam_data.rs', 'for _i in 0..number_of_track_jam_targets {', 'for _i in 0..number_of_track_jam_targets.min(10) {')],
    '''
use open_dis_rust::common::data_types::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData;
fn main() {
    for n in [0usize, 1, 2, 10, 11, 12, 255] {
        let mut rec = ElectromagneticEmissionBeamData::default();
        rec.number_of_track_jam_targets = n as u8;
        rec.track_jam_targets = vec![Default::default(); n];
        let mut buf = BytesMut::new();
        rec.serialize(&mut buf);
        let back = ElectromagneticEmissionBeamData::deserialize(&mut buf);
        assert_eq!(back.track_jam_targets.len(), n);
        assert_eq!(buf.len(), 0);
    }
}
''')

bug('live-header-padding', 'C07', 'a live entity header whose last octet is not zero',
    'Decoding a live entity header drops its padding octet.',
    [('common/live_entity_pdu_header.rs', '            padding: buf.get_u8(),', '            padding: {\n                buf.advance(1);\n                0\n            },')],
    '''
use open_dis_rust::common::live_entity_pdu_header::LiveEntityPduHeader;
fn main() {
    let octets = [7u8, 1, 49, 11, 0, 0, 0, 9, 0, 12, 0, 0x5a];
    let mut b = &octets[..];
    let h = LiveEntityPduHeader::deserialize(&mut b);
    let mut out = BytesMut::new();
    h.serialize(&mut out);
    assert_eq!(&out[..], &octets[..]);
}
''')

bug('vec-len-by-first', 'C03', 'a list with two elements of different encoded length',
    'The length of a list is computed as that of its first element times the number of elements, which is wrong for records of variable length.',
    [('pdu_macro.rs', 'self.iter().map(FieldLen::field_len).sum()', 'self.first().map_or(0, FieldLen::field_len) * self.len()')],
    '''
use open_dis_rust::simulation_management::DataPdu;
use open_dis_rust::common::data_types::datum_records::VariableDatumRecord;
fn main() {
    let mut p = DataPdu::new();
    p.variable_datum_records = vec![
        VariableDatumRecord { datum_id: 1, length_bits: 64, value: vec![1; 8] },
        VariableDatumRecord { datum_id: 2, length_bits: 128, value: vec![2; 16] },
    ];
    let mut b = BytesMut::new();
    p.serialize(&mut b).unwrap();
    assert_eq!(b.len(), p.header().length() as usize);
}
''')

bug('aggregate-marking-chunk', 'C05', 'a buffer split into chunks inside the 31 characters of an aggregate marking',
    'Decoding an aggregate marking only reads the octets of the current chunk of the buffer, so that the result depends on how the octets are chunked.',
    [(DT + 'aggregate_marking.rs', '''        for char in &mut characters {
            *char = buf.get_i8();
        }
''', '''        for (char, octet) in characters.iter_mut().zip(buf.chunk()) {
            *char = i8::from_be_bytes([*octet]);
        }
        buf.advance(31);
''')],
    '''
use open_dis_rust::common::data_types::aggregate_marking::AggregateMarking;
fn main() {
    let octets: Vec<u8> = (1..=32).collect();
    for cut in 0..=32 {
        let mut b = (&octets[..cut]).chain(&octets[cut..]);
        let m = AggregateMarking::deserialize(&mut b);
        let mut out = BytesMut::new();
        m.serialize(&mut out);
        assert_eq!(&out[..], &octets[..]);
    }
}
''')

bug('world-coordinate-f32', 'C01', 'a coordinate that is not exactly a 32-bit float',
    'World coordinates are rounded to single precision when decoded.',
    [(DT + 'world_coordinate.rs', 'y: buf.get_f64(),', 'y: f64::from(buf.get_f64() as f32),')],
    '''
use open_dis_rust::entity_information::EntityStatePdu;
fn main() {
    let mut p = EntityStatePdu::new();
    p.entity_location.x = 4_371_234.567_890_1;
    p.entity_location.y = 1.0 + 1e-12;
    p.entity_location.z = 0.1;
    let mut b = BytesMut::new();
    p.serialize(&mut b).unwrap();
    let q = EntityStatePdu::deserialize(&mut b).unwrap();
    assert_eq!(p.entity_location.x, q.entity_location.x);
    assert_eq!(p.entity_location.y, q.entity_location.y);
    assert_eq!(p.entity_location.z, q.entity_location.z);
}
''')

bug('vec-take-255', 'C02', 'a list of more than 255 elements',
    'Only the first 255 elements of a list are written.',
    [('pdu_macro.rs', '''        for item in self {
            item.serialize_field(buf);''', '''        for item in self.iter().take(usize::from(u8::MAX)) {
            item.serialize_field(buf);''')],
    '''
use open_dis_rust::radio_communications::SignalPdu;
fn main() {
    for n in [0usize, 1, 255, 256, 1000] {
        let mut p = SignalPdu::new();
        p.data = (0..n).map(|i| i as u8).collect();
        let mut b = BytesMut::new();
        p.serialize(&mut b).unwrap();
        assert_eq!(&b[b.len() - n..], &p.data[..]);
        assert_eq!(b.len(), p.calculate_length().unwrap() as usize);
    }
}
''')

bug('antenna-pattern-256', 'C04', 'a Transmitter PDU with an antenna pattern of 256 octets or more',
    'Decoding a Transmitter PDU panics when its antenna pattern is longer than 255 octets.',
    [(DT + 'antenna_pattern.rs', '''        let len_u16 = u16::try_from(len).expect("Should not be larger than u16");
        Self::deserialize(buf, len_u16)''', '''        let len_u16 = u8::try_from(len).expect("Should not be larger than u8");
        Self::deserialize(buf, len_u16.into())''')],
    '''
use open_dis_rust::radio_communications::TransmitterPdu;
fn main() {
    let mut p = TransmitterPdu::new();
    let mut b = BytesMut::new();
    p.serialize(&mut b).unwrap();
    let mut octets = b.to_vec();
    let fixed = octets.len();
    // antenna pattern length: 12 header + 6 + 2 + 8 + 1 + 1 + 2 + 24 + 12 + 2
    for n in [1u16, 255, 256, 300, 1000] {
        octets.truncate(fixed);
        octets[70..72].copy_from_slice(&n.to_be_bytes());
        octets.resize(fixed + n as usize, 0x11);
        let mut s = &octets[..];
        let q = TransmitterPdu::deserialize(&mut s).unwrap();
        assert_eq!(q.antenna_pattern_length, n);
        assert_eq!(s.len(), 0);
    }
}
''')

bug('pdu-type-mask', 'C06', 'a type octet with its top bit set',
    'The top bit of the PDU type octet is ignored, so that PDUs of unknown types are taken for known ones.',
    [('common/enums.rs', '''    Attribute = 72,
}

impl PduType {
    #[must_use]
    pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
        Self::from_u8(buf.get_u8())''', '''    Attribute = 72,
}

impl PduType {
    #[must_use]
    pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
        Self::from_u8(buf.get_u8() & 0x7f)''')],
    '''
use open_dis_rust::simulation_management::AcknowledgePdu;
fn main() {
    let mut p = AcknowledgePdu::new();
    let mut b = BytesMut::new();
    p.serialize(&mut b).unwrap();
    for t in 0..=255u8 {
        let mut o = b.to_vec();
        o[2] = t;
        let mut s = &o[..];
        assert_eq!(AcknowledgePdu::deserialize(&mut s).is_ok(), t == 15, "{t}");
    }
}
''')

bug('aii-no-clear', 'C08', 'setting the active interrogation indicator back to not active',
    'The active interrogation indicator cannot be cleared once it is set.',
    [('common/pdu_header.rs', 'v = (v & 0b01) | ((aii as u8) << 1);', 'v |= (aii as u8) << 1;')],
    '''
use open_dis_rust::common::pdu_header::PduStatusRecord;
use open_dis_rust::common::enums::ActiveInterrogationIndicator;
fn main() {
    for o in 0..=255u8 {
        let mut s = PduStatusRecord::from_u8(o);
        s.set_aii(ActiveInterrogationIndicator::NotActive);
        assert_eq!(s.get_aii(), ActiveInterrogationIndicator::NotActive);
        assert_eq!(s.to_u8(), o & !0x20);
        s.set_aii(ActiveInterrogationIndicator::Active);
        assert_eq!(s.to_u8(), o | 0x20);
    }
}
''')

bug('max-size-8191', 'C11', 'a PDU of exactly 8192 octets',
    'PDUs of exactly the maximum size are refused.',
    [('common/constants.rs', 'pub const MAX_PDU_SIZE_OCTETS: usize = 8192;', 'pub const MAX_PDU_SIZE_OCTETS: usize = 0x1fff;')],
    '''
use open_dis_rust::radio_communications::SignalPdu;
fn main() {
    for total in [8000usize, 8191, 8192, 8193, 70000] {
        let mut p = SignalPdu::new();
        let fixed = p.calculate_length().unwrap() as usize;
        p.data = vec![3; total - fixed];
        let mut b = BytesMut::new();
        let r = p.serialize(&mut b);
        assert_eq!(r.is_ok(), total <= 8192, "{total}");
        assert_eq!(b.len(), if total <= 8192 { total } else { 0 });
    }
}
''')

bug('land-appearance-truncate', 'C12', 'an integer with a bit that has no name in the flag set',
    'The checked conversion of an integer to a land platform appearance silently drops unknown bits instead of refusing the integer.',
    [('common/enums.rs', '''impl LandPlatformAppearance {
    #[must_use]
    pub const fn as_u32(&self) -> u32 {
        self.bits()
    }

    #[must_use]
    pub const fn from_u32(bits: u32) -> Option<Self> {
        Self::from_bits(bits)''', '''impl LandPlatformAppearance {
    #[must_use]
    pub const fn as_u32(&self) -> u32 {
        self.bits()
    }

    #[must_use]
    pub const fn from_u32(bits: u32) -> Option<Self> {
        Some(Self::from_bits_truncate(bits))''')],
    '''
use open_dis_rust::common::enums::LandPlatformAppearance;
fn main() {
    let all = LandPlatformAppearance::all().as_u32();
    for i in 0..32 {
        let v = 1u32 << i;
        match LandPlatformAppearance::from_u32(v) {
            Some(f) => assert_eq!(f.as_u32(), v),
            None => assert_eq!(v & all, 0),
        }
    }
}
''')

bug('timestamp-i32', 'C13', 'a moment later than 35 minutes 47 seconds past the hour',
    'The microseconds past the hour go through a signed 32-bit integer: past 35:47 the timestamp is 0.',
    [('common/pdu_header.rs', 'let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;', 'let dis_time = (second_curr + minute_curr + nanosecond_curr) as i32 as f32 / 1.68;')],
    '''
use open_dis_rust::common::pdu_header::PduHeader;
use std::sync::atomic::{AtomicI64, Ordering};
static US: AtomicI64 = AtomicI64::new(0);
#[repr(C)]
pub struct Ts { s: i64, ns: i64 }
// stands in for the C library's clock
#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(_c: i32, t: *mut Ts) -> i32 {
    let us = US.load(Ordering::SeqCst);
    unsafe { *t = Ts { s: 1_700_000_000 / 3600 * 3600 + us / 1_000_000, ns: us % 1_000_000 * 1000 } };
    0
}
fn main() {
    for us in [0i64, 1_000_000, 600_500_000, 2_147_000_000, 2_148_000_000, 3_000_000_123, 3_599_900_000] {
        US.store(us, Ordering::SeqCst);
        let t = f64::from(PduHeader::calculate_dis_timestamp()) * 1.68;
        assert!((t - us as f64).abs() < 600.0, "{us} {t}");
    }
}
''')

bug('normalize-epsilon', 'C14', 'a vector shorter than the epsilon of 32-bit floats',
    'Small but non-zero vectors are not normalized.',
    [(DT + 'vector3_float.rs', 'if mag == 0.0 {', 'if mag < f32::EPSILON {')],
    '''
use open_dis_rust::common::data_types::vector3_float::Vector3Float;
fn main() {
    for m in [1.0f32, 1e-3, 1e-7, 1e-9, 1e-15] {
        let v = Vector3Float::new(3.0 * m, 0.0, 4.0 * m).normalize().expect("not zero");
        assert!((v.x - 0.6).abs() < 1e-5 && (v.z - 0.8).abs() < 1e-5);
    }
    assert!(Vector3Float::zero().normalize().is_none());
}
''')

bug('i64-little-endian', 'C16', 'a PDU of a user with a signed 64-bit field',
    'Signed 64-bit fields of PDUs defined with the macro are written and read in little-endian order.',
    [('pdu_macro.rs', 'impl_primitive!(i64, put_i64, get_i64, 8usize);', 'impl_primitive!(i64, put_i64_le, get_i64_le, 8usize);')],
    '''
use open_dis_rust::common::{pdu_header::PduHeader, enums::{PduType, ProtocolFamily}};
open_dis_rust::define_pdu! {
    #[derive(Debug)]
    pub struct MyPdu {
        header: PduHeader,
        pdu_type: PduType::Other,
        protocol_family: ProtocolFamily::Other,
        fields: { pub a: i64, pub b: u64, pub c: i32, }
    }
}
fn main() {
    let mut p = MyPdu::new();
    p.a = -2;
    p.b = 0x0102_0304_0506_0708;
    p.c = 7;
    let mut b = BytesMut::new();
    p.serialize(&mut b).unwrap();
    assert_eq!(&b[12..20], &(-2i64).to_be_bytes());
    assert_eq!(&b[20..28], &[1, 2, 3, 4, 5, 6, 7, 8]);
    let q = MyPdu::deserialize(&mut b).unwrap();
    assert_eq!((q.a, q.b, q.c), (p.a, p.b, p.c));
}
''')

bug('antenna-pattern-multiple-of-8', 'C17', 'an antenna pattern whose length is not a multiple of 8',
    'The octets of an antenna pattern past the last multiple of 8 are lost when it is decoded.',
    [(DT + 'antenna_pattern.rs', '        for _ in 0..length {', '        for _ in 0..length & !7 {')],
    '''
use open_dis_rust::radio_communications::TransmitterPdu;
fn main() {
    let mut p = TransmitterPdu::new();
    let mut b = BytesMut::new();
    p.serialize(&mut b).unwrap();
    let mut octets = b.to_vec();
    let fixed = octets.len();
    for n in [8u16, 16, 40, 41, 44] {
        octets.truncate(fixed);
        octets[70..72].copy_from_slice(&n.to_be_bytes());
        octets.resize(fixed + n as usize, 0x11);
        octets[8..10].copy_from_slice(&(fixed as u16 + n).to_be_bytes());
        let mut s = &octets[..];
        let mut q = TransmitterPdu::deserialize(&mut s).unwrap();
        let mut out = BytesMut::new();
        q.serialize(&mut out).unwrap();
        assert_eq!(&out[..], &octets[..]);
    }
}
''')

bug('fod-new-swapped', 'C18', 'different values for parameters 5 and 6',
    'The constructor of FundamentalOperationalData swaps its last two parameters.',
    [(DT + 'fundamental_operational_data.rs', '''            parameter4,
            parameter5,
            parameter6,
        }
    }

    pub fn serialize''', '''            parameter4,
            parameter5: parameter6,
            parameter6: parameter5,
        }
    }

    pub fn serialize''')],
    '''
use open_dis_rust::common::data_types::fundamental_operational_data::FundamentalOperationalData;
fn main() {
    let f = FundamentalOperationalData::new(1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
    assert_eq!((f.parameter1, f.parameter2, f.parameter3, f.parameter4, f.parameter5, f.parameter6), (5, 6, 7, 8, 9, 10));
}
''')

bug('icp-len-from-record', 'C03', 'an IntercomCommunicationsParameters record whose record_length is not 8',
    'The length of intercom communications parameters is taken from their record length field although a fixed number of octets is written.',
    [(DT + 'intercom_communications_parameters.rs', '        2 + 2 + 4\n', '        match usize::from(self.record_length) {\n            0 => 2 + 2 + 4,\n            n => n,\n        }\n')],
    '''
use open_dis_rust::radio_communications::IntercomControlPdu;
use open_dis_rust::common::data_types::intercom_communications_parameters::IntercomCommunicationsParameters;
fn main() {
    for rl in [0u16, 4, 8, 100] {
        let mut p = IntercomControlPdu::new();
        p.intercom_parameters = vec![IntercomCommunicationsParameters::new(1, rl, 3)];
        let mut b = BytesMut::new();
        p.serialize(&mut b).unwrap();
        assert_eq!(b.len(), p.header().length() as usize);
    }
}
''')

bug('header-exercise-zero', 'C07', 'exercise number 0',
    'A header constructed for exercise 0 is for exercise 1.',
    [('common/pdu_header.rs', '''            protocol_version: ProtocolVersion::IEEE1278_1_2012,
            exercise_id,
''', '''            protocol_version: ProtocolVersion::IEEE1278_1_2012,
            exercise_id: exercise_id.max(1),
''')],
    '''
use open_dis_rust::common::{pdu_header::PduHeader, enums::{PduType, ProtocolFamily}};
fn main() {
    for e in 0..=255u8 {
        assert_eq!(PduHeader::new(PduType::Fire, ProtocolFamily::Warfare, e, 96).exercise_id, e);
    }
}
''')

bug('finalize-never-shrinks', 'C03', 'a PDU that was finalized with more content than it has now',
    'Finalizing a PDU only replaces the length in its header when the new length is greater.',
    [('common/pdu.rs', '''        self.header_mut().set_length(len.unwrap_or_default());''',
      '''        let length = len.unwrap_or_default();
        if self.header().length() < length {
            self.header_mut().set_length(length);
        }''')],
    '''
use open_dis_rust::radio_communications::SignalPdu;
fn main() {
    let mut p = SignalPdu::new();
    let empty = p.header().length();
    p.data = vec![1; 100];
    p.finalize();
    assert_eq!(p.header().length(), empty + 100);
    p.data.truncate(10);
    p.finalize();
    assert_eq!(p.header().length(), empty + 10);
}
''')

bug('status-reserved-dropped', 'C08', 'a status octet with one of its two reserved bits set',
    'The reserved bits of the status octet are cleared when it is read.',
    [('common/pdu_header.rs', 'Self::from_bytes([b])', 'Self::from_bytes([b & 0b0011_1111])')],
    '''
use open_dis_rust::common::pdu_header::PduStatusRecord;
fn main() {
    for o in 0..=255u8 {
        assert_eq!(PduStatusRecord::from_u8(o).to_u8(), o);
    }
}
''')

bug('country-low-octet', 'C10', 'a country code above 282 whose low octet is small',
    'A country code out of range is retried with its low octet alone.',
    [('common/enums.rs', '''impl Country {
    #[must_use]
    pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
        Self::from_u16(buf.get_u16()).unwrap_or_else(Self::default)''', '''impl Country {
    #[must_use]
    pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
        let code = buf.get_u16();
        Self::from_u16(code)
            .or_else(|| Self::from_u16(code.swap_bytes()))
            .unwrap_or_else(Self::default)''')],
    '''
use open_dis_rust::common::enums::Country;
fn main() {
    for code in 0..=65535u16 {
        let c = Country::deserialize(&mut &code.to_be_bytes()[..]) as u16;
        assert!(c == code || c == Country::default() as u16, "{code} {c}");
    }
}
''')

bug('max-size-wrap', 'C11', 'a PDU of 65536 octets or more',
    'The size of a PDU is reduced to 16 bits before it is compared with the limit.',
    [('pdu_macro.rs', '''                if !$crate::common::constants::validate_pdu_size(len) {''', '''                if !$crate::common::constants::validate_pdu_size(len & 0xffff) {'''),
     ('pdu_macro.rs', '''                u16::try_from(len).map_err(|_| $crate::common::dis_error::DISError::PduSizeExceeded {
                    size: len,
                    max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
                })''', '''                Ok((len & 0xffff) as u16)''')],
    '''
use open_dis_rust::radio_communications::SignalPdu;
fn main() {
    for n in [10usize, 8000, 9000, 65000, 65504, 65536, 66000, 131072, 140000] {
        let mut p = SignalPdu::new();
        p.data = vec![3; n];
        let mut b = BytesMut::new();
        assert_eq!(p.serialize(&mut b).is_ok(), n <= 8000, "{n}");
    }
}
''')

bug('frozen-behavior-dropped', 'C12', 'a frozen behavior octet with a bit that has no name',
    'Bits without a name are dropped when frozen behavior is encoded, although decoding keeps them.',
    [('common/enums.rs', '''impl FieldSerialize for FrozenBehavior {
    fn serialize_field(&self, buf: &mut BytesMut) {
        buf.put_u8(self.as_u8());''', '''impl FieldSerialize for FrozenBehavior {
    fn serialize_field(&self, buf: &mut BytesMut) {
        buf.put_u8(Self::from_bits_truncate(self.bits()).as_u8());''')],
    '''
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldSerialize};
use open_dis_rust::common::enums::FrozenBehavior;
fn main() {
    for o in 0..=255u8 {
        let f = FrozenBehavior::deserialize_field(&mut &[o][..]);
        let mut b = BytesMut::new();
        f.serialize_field(&mut b);
        assert_eq!(b[0], o);
    }
}
''')

bug('cross-product-cancel', 'C14', 'vectors with components below one',
    'The z component of the cross product is rounded to an integer.',
    [(DT + 'vector3_float.rs', 'self.x.mul_add(other.y, -(self.y * other.x)),', 'self.x.mul_add(other.y, -(self.y * other.x).round()),')],
    '''
use open_dis_rust::common::data_types::vector3_float::Vector3Float;
fn main() {
    let a = Vector3Float::new(1.0, 2.0, 3.0);
    assert_eq!(a.cross(&Vector3Float::new(4.0, 5.0, 6.0)), Vector3Float::new(-3.0, 6.0, -3.0));
    let h = Vector3Float::new(0.5, 0.25, 0.0);
    let c = h.cross(&Vector3Float::new(0.5, 0.75, 0.0));
    assert_eq!(c.z, 0.375 - 0.125);
}
''')

bug('underflow-swapped', 'C18', 'an underflow error whose two numbers differ',
    'The constructor of underflow errors exchanges the octets wanted and the octets there.',
    [('common/dis_error.rs', '''        Self::BufferUnderflow {
            attempted,
            available,
        }''', '''        Self::BufferUnderflow {
            attempted: available,
            available: attempted,
        }''')],
    '''
use open_dis_rust::common::dis_error::DISError;
fn main() {
    match DISError::buffer_underflow(10, 3) {
        DISError::BufferUnderflow { attempted, available } => assert_eq!((attempted, available), (10, 3)),
        _ => panic!(),
    }
}
''')

bug('country-one-octet', 'C01', 'an EntityState PDU of a country with code 256 or more',
    'The country of an entity type is read through one octet.',
    [(DT + 'entity_type.rs', 'country: Country::deserialize(buf),', 'country: {\n                let code = buf.get_u16();\n                let country = Country::deserialize(&mut &code.to_be_bytes()[..]);\n                if country as u16 > 255 { Country::default() } else { country }\n            },')],
    '''
use open_dis_rust::common::data_types::entity_type::EntityType;
use open_dis_rust::common::enums::Country;
fn main() {
    for code in 0..=282u16 {
        let mut o = vec![1u8, 2];
        o.extend_from_slice(&code.to_be_bytes());
        o.extend_from_slice(&[3, 4, 5, 6]);
        let want = Country::deserialize(&mut &code.to_be_bytes()[..]) as u16;
        assert_eq!(EntityType::deserialize(&mut &o[..]).country as u16, want);
    }
}
''')

bug('euler-angle-wrap', 'C02', 'an orientation angle beyond a full turn',
    'The azimuth of an orientation is reduced to one turn when it is encoded.',
    [(DT + 'euler_angles.rs', 'buf.put_f32(self.psi);', 'buf.put_f32(self.psi % std::f32::consts::TAU);')],
    '''
use open_dis_rust::entity_information::EntityStatePdu;
fn main() {
    for psi in [0.0f32, 1.5, -3.0, 6.2, 6.3, -7.0, 100.0] {
        let mut p = EntityStatePdu::new();
        p.entity_orientation.psi = psi;
        let mut b = BytesMut::new();
        p.serialize(&mut b).unwrap();
        assert_eq!(b[72..76], psi.to_be_bytes());
    }
}
''')

bug('datum-pad-from-buffer', 'C05', 'a buffer that holds a number of octets that is no multiple of 8 before the PDU is encoded',
    'The padding of variable datum records is computed from the position in the output buffer instead of from the length of the value.',
    [(DT + 'datum_records.rs', '''            let zeros = vec![0u8; pad_bytes];
''', '''            let zeros = vec![0u8; buf.len().next_multiple_of(8) - buf.len()];
''')],
    '''
use open_dis_rust::simulation_management::DataPdu;
use open_dis_rust::common::data_types::datum_records::VariableDatumRecord;
fn main() {
    for before in 0..9usize {
        let mut p = DataPdu::new();
        p.variable_datum_records = vec![VariableDatumRecord { datum_id: 1, length_bits: 24, value: vec![1, 2, 3] }];
        let mut b = BytesMut::new();
        b.put_bytes(0xee, before);
        p.serialize(&mut b).unwrap();
        assert_eq!(b.len() - before, 56);
    }
}
''')

bug('header-slow-path', 'C05', 'a buffer of several chunks with a boundary inside the header',
    'Headers that do not lie in one chunk of the buffer are decoded by a second path that mixes up the octets of the timestamp.',
    [('common/pdu_header.rs', '''            timestamp: buf.get_u32(),
''', '''            timestamp: if buf.chunk().len() < 4 {
                let high = buf.get_u16();
                u32::from(buf.get_u16()) << 16 | u32::from(high)
            } else {
                buf.get_u32()
            },
''')],
    '''
use open_dis_rust::common::pdu_header::PduHeader;
fn main() {
    let octets = [7u8, 1, 2, 3, 4, 5, 6, 7, 0, 12, 0, 0];
    for cut in 0..=octets.len() {
        let mut parts = (&octets[..cut]).chain(&octets[cut..]);
        assert_eq!(PduHeader::deserialize(&mut parts).timestamp, 0x0405_0607, "{cut}");
    }
}
''')

bug('entity-kind-table', 'C04', 'an entity type whose kind is none of the ten known ones',
    'The kind of an entity type is looked up in a table by its code: an unknown code panics.',
    [('common/enums.rs', '''impl EntityKind {
    #[must_use]
    pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
        Self::from_u8(buf.get_u8()).unwrap_or_else(Self::default)''', '''impl EntityKind {
    const ALL: [Self; 10] = [
        Self::Other,
        Self::Platform,
        Self::Munition,
        Self::LifeForm,
        Self::Environmental,
        Self::CulturalFeature,
        Self::Supply,
        Self::Radio,
        Self::Expendable,
        Self::SensorEmitter,
    ];

    #[must_use]
    pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
        Self::ALL[usize::from(buf.get_u8())]''')],
    '''
use open_dis_rust::entity_information::EntityStatePdu;
fn main() {
    let mut b = BytesMut::new();
    EntityStatePdu::new().serialize(&mut b).unwrap();
    for kind in 0..=255u8 {
        let mut o = b.to_vec();
        o[20] = kind;
        let r = std::panic::catch_unwind(move || EntityStatePdu::deserialize(&mut &o[..]).is_ok());
        assert!(r.is_ok(), "{kind}");
    }
}
''')

bug('type-of-empty-header', 'C06', 'a PDU of another type whose header gives the length as 0',
    'Decoding accepts PDUs of other types when the length in their header is 0.',
    [('pdu_macro.rs', '''                // check PDU type (assumes header exposes pdu_type() method; adapt if different)
                if header.pdu_type() != $pdu_type {''', '''                // check PDU type; a header without length is a template that fits any PDU
                if header.pdu_type() != $pdu_type && header.length() != 0 {''')],
    '''
use open_dis_rust::simulation_management::{AcknowledgePdu, StartResumePdu};
fn main() {
    let mut b = BytesMut::new();
    StartResumePdu::new().serialize(&mut b).unwrap();
    let mut o = b.to_vec();
    assert!(AcknowledgePdu::deserialize(&mut &o[..]).is_err());
    o[8] = 0;
    o[9] = 0;
    assert!(AcknowledgePdu::deserialize(&mut &o[..]).is_err());
    assert!(StartResumePdu::deserialize(&mut &o[..]).is_ok());
}
''')

bug('shaft-rpm-sign', 'C09', 'a shaft that is ordered to turn backwards',
    'The ordered revolutions of a shaft lose their sign when they are encoded.',
    [(DT + 'shaft_rpms.rs', 'buf.put_i16(self.ordered_shaft_rpms);', 'buf.put_u16(self.ordered_shaft_rpms.unsigned_abs());')],
    '''
use open_dis_rust::common::data_types::shaft_rpms::ShaftRPMs;
fn main() {
    for v in [0i16, 1, 300, -1, -300, i16::MIN, i16::MAX] {
        let mut b = BytesMut::new();
        ShaftRPMs::new(v, v, 0).serialize(&mut b);
        assert_eq!(ShaftRPMs::deserialize(&mut b).ordered_shaft_rpms, v);
    }
}
''')

bug('timestamp-two-clocks', 'C13', 'a second ends between two readings of the clock',
    'The timestamp takes the fraction of the second from another reading of the clock than the rest: at the end of a second it is a second early.',
    [('common/pdu_header.rs', 'let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;', 'let dis_time = (second_curr + minute_curr + nanosecond_curr.min(u64::from(Utc::now().nanosecond() / 1000))) as f32 / 1.68;')],
    '''
use open_dis_rust::common::pdu_header::PduHeader;
use std::sync::atomic::{AtomicI64, Ordering};
static US: AtomicI64 = AtomicI64::new(0);
#[repr(C)]
pub struct Ts { s: i64, ns: i64 }
// stands in for the C library's clock, 10 us per reading
#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(_c: i32, t: *mut Ts) -> i32 {
    let us = US.fetch_add(10, Ordering::SeqCst);
    unsafe { *t = Ts { s: 1_700_000_000 / 3600 * 3600 + us / 1_000_000, ns: us % 1_000_000 * 1000 } };
    0
}
fn main() {
    for us in [0i64, 30_000_000, 59_999_980, 59_999_990, 59_999_995, 119_999_995, 1_799_999_995, 999_995, 1_999_990] {
        US.store(us, Ordering::SeqCst);
        let t = f64::from(PduHeader::calculate_dis_timestamp()) * 1.68;
        assert!((t - us as f64).abs() < 2000.0, "{us} {t}");
    }
}
''')

bug('macro-len-u8', 'C16', 'a user-defined PDU whose length field says 256 or more',
    'Only the low octet of a length field governs how much of a field of a PDU is decoded.',
    [('pdu_macro.rs', '''        let $field: $t = <$t as $crate::pdu_macro::FieldDeserializeWithLen>::deserialize_with_len(
            $buf,
            $len_field as usize,''', '''        let $field: $t = <$t as $crate::pdu_macro::FieldDeserializeWithLen>::deserialize_with_len(
            $buf,
            $len_field as u8 as usize,''')],
    '''
use open_dis_rust::common::{pdu_header::PduHeader, enums::{PduType, ProtocolFamily}};
use open_dis_rust::pdu_macro::*;
#[derive(Debug, Default, Clone, PartialEq)]
pub struct Blob(Vec<u8>);
impl FieldSerialize for Blob { fn serialize_field(&self, b: &mut BytesMut) { b.put_slice(&self.0) } }
impl FieldLen for Blob { fn field_len(&self) -> usize { self.0.len() } }
impl FieldDeserializeWithLen for Blob {
    fn deserialize_with_len<B: Buf>(b: &mut B, n: usize) -> Self { Blob(b.copy_to_bytes(n).to_vec()) }
}
open_dis_rust::define_pdu! {
    #[derive(Debug)]
    pub struct MyPdu {
        header: PduHeader,
        pdu_type: PduType::Other,
        protocol_family: ProtocolFamily::Other,
        fields: { pub n: u32, #[len = n] pub a: Blob, }
    }
}
fn main() {
    for n in [0usize, 1, 255, 256, 257, 300, 511, 512, 4000] {
        let mut p = MyPdu::new();
        p.a = Blob(vec![5; n]);
        let mut b = BytesMut::new();
        p.serialize(&mut b).unwrap();
        let q = MyPdu::deserialize(&mut b).unwrap();
        assert_eq!(q.a, p.a);
    }
}
''')

bug('option-len-one', 'C17', 'an optional part of one octet',
    'An optional part of a single octet is taken for an absent one when a PDU is decoded.',
    [('pdu_macro.rs', '''        if len == 0 {
            None''', '''        if len < 2 {
            None''')],
    '''
use open_dis_rust::radio_communications::TransmitterPdu;
fn main() {
    let mut b = BytesMut::new();
    TransmitterPdu::new().serialize(&mut b).unwrap();
    for n in 0..20u16 {
        let mut o = b.to_vec();
        o[70..72].copy_from_slice(&n.to_be_bytes());
        let len = o.len() as u16 + n;
        o[8..10].copy_from_slice(&len.to_be_bytes());
        o.resize(len as usize, 7);
        let mut p = TransmitterPdu::deserialize(&mut &o[..]).unwrap();
        let mut again = BytesMut::new();
        p.serialize(&mut again).unwrap();
        assert_eq!(o, again.to_vec(), "{n}");
    }
}
''')

bug('live-header-reset', 'C07', 'a decoded live entity header with a padding octet that is not zero',
    'Setting the length of a live entity header resets its padding octet.',
    [('common/live_entity_pdu_header.rs', '''    fn set_length(&mut self, value: u16) {
        self.length = value;
''', '''    fn set_length(&mut self, value: u16) {
        *self = Self {
            length: value,
            padding: 0,
            ..*self
        };
''')],
    '''
use open_dis_rust::common::live_entity_pdu_header::LiveEntityPduHeader;
fn main() {
    for pad in 0..=255u8 {
        let octets = [7u8, 1, 49, 11, 0, 0, 0, 9, 0, 12, 0, pad];
        let mut h = LiveEntityPduHeader::deserialize(&mut &octets[..]);
        h.set_length(99);
        let mut b = BytesMut::new();
        h.serialize(&mut b);
        assert_eq!(b[..], [7, 1, 49, 11, 0, 0, 0, 9, 0, 99, 0, pad]);
    }
}
''')

ALLOC_DEMO = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static MAX: AtomicUsize = AtomicUsize::new(0);
struct Watch;
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAX.fetch_max(l.size(), Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        MAX.fetch_max(l.size(), Relaxed);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static W: Watch = Watch;
'''

bug('record-sets-reserved', 'C19', 'a record specification whose count is far larger than the octets that follow',
    'Decoding reserves memory for as many record sets as an untrusted 32-bit count says.',
    [('common/data_types/record_specification.rs', '''        let number_of_record_sets = buf.get_u32();
        let mut record_sets = vec![];
        for _ in 0..number_of_record_sets {
            record_sets.push(RecordSpecificationElement::try_deserialize_field(buf)?);
''', '''        let number_of_record_sets = buf.get_u32();
        let mut record_sets = Vec::with_capacity(number_of_record_sets as usize);
        for _ in 0..number_of_record_sets {
            record_sets.push(RecordSpecificationElement::try_deserialize_field(buf)?);
''')],
    ALLOC_DEMO + '''
use open_dis_rust::common::data_types::record_specification::RecordSpecification;
use open_dis_rust::pdu_macro::FieldDeserialize;
fn main() {
    for n in [0u32, 1, 100, 1 << 16, 1 << 20] {
        MAX.store(0, Relaxed);
        let mut b = n.to_be_bytes().to_vec();
        b.extend([0; 40]);
        let _ = RecordSpecification::try_deserialize_field(&mut &b[..]);
        assert!(MAX.load(Relaxed) < 100_000, "{n}: {}", MAX.load(Relaxed));
    }
}
''')

bug('record-values-before-check', 'C19', 'a record set whose length times count is far larger than the octets that follow',
    'Decoding sets aside memory for the values of a record set before looking whether they are there.',
    [('common/data_types/record_specification_element.rs', '''        check_remaining(buf, num_record_values)?;
        let mut record_values = vec![0; num_record_values];
''', '''        let mut record_values = vec![0; num_record_values];
        check_remaining(buf, num_record_values)?;
''')],
    ALLOC_DEMO + '''
use open_dis_rust::common::data_types::record_specification_element::RecordSpecificationElement;
use open_dis_rust::pdu_macro::FieldDeserialize;
fn main() {
    for (l, c) in [(0u16, 0u16), (1, 1), (1, 7), (8, 60000), (300, 5000)] {
        MAX.store(0, Relaxed);
        let mut b = vec![0; 8];
        b.extend(l.to_be_bytes());
        b.extend(c.to_be_bytes());
        b.extend([0; 40]);
        let _ = RecordSpecificationElement::try_deserialize_field(&mut &b[..]);
        assert!(MAX.load(Relaxed) < 100_000, "{l} {c}: {}", MAX.load(Relaxed));
    }
}
''')

bug('grow-forgets', 'C05', 'encoding into a buffer that already holds octets and has too little room left',
    'A buffer that has to grow loses what it held before.',
    [('pdu_macro.rs', '''                self.header.set_length(len);

                // write header
''', '''                self.header.set_length(len);
                if buf.capacity() - buf.len() < usize::from(len) {
                    *buf = bytes::BytesMut::with_capacity(buf.capacity() + usize::from(len));
                }

                // write header
''')],
    '''
use open_dis_rust::entity_information::CollisionPdu;
fn main() {
    for cap in [0usize, 5, 50, 64, 65, 100, 1000] {
        let mut buf = BytesMut::with_capacity(cap);
        buf.put_slice(&[1, 2, 3, 4, 5]);
        CollisionPdu::new().serialize(&mut buf).unwrap();
        assert_eq!(buf[..5], [1, 2, 3, 4, 5], "{cap}");
    }
}
''')

bug('antenna-scratch', 'C05', 'two antenna patterns of different length encoded one after the other, the longer one first',
    'Encoding an antenna pattern appends what is left of a longer one encoded before.',
    [('common/data_types/antenna_pattern.rs', '''        for i in 0..self.record_specific_fields.len() {
            buf.put_u8(self.record_specific_fields[i]);
        }
''', '''        thread_local! {
            static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        SCRATCH.with_borrow_mut(|scratch| {
            let n = self.record_specific_fields.len();
            if scratch.len() < n {
                scratch.resize(n, 0);
            }
            scratch[..n].copy_from_slice(&self.record_specific_fields);
            buf.put_slice(scratch);
        });
''')],
    '''
use open_dis_rust::common::data_types::antenna_pattern::AntennaPattern;
fn main() {
    for n in [1u16, 3, 8, 2, 8, 5] {
        let octets = [9u8; 8];
        let p = AntennaPattern::deserialize(&mut &octets[..], n).unwrap();
        let mut b = BytesMut::new();
        p.serialize(&mut b);
        assert_eq!(b.len(), usize::from(n));
    }
}
''')

bug('timestamp-high-water', 'C13', 'two headers made on the two sides of an hour boundary',
    'Timestamps never go back, not even when an hour has passed.',
    [('common/pdu_header.rs', '''        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
        dis_time as u32
    }

    /// Looks at''', '''        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
        static LATEST: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let dis_time = dis_time as u32;
        LATEST
            .fetch_max(dis_time, std::sync::atomic::Ordering::Relaxed)
            .max(dis_time)
    }

    /// Looks at''')],
    '''
use open_dis_rust::common::pdu_header::PduHeader;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static NOW: AtomicI64 = AtomicI64::new(0);
#[repr(C)]
pub struct Ts { s: i64, n: i64 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut Ts) -> i32 {
    unsafe { (*t).s = NOW.load(SeqCst); (*t).n = 5_000_000; }
    0
}
fn main() {
    for s in [1_800_000_000i64, 1_800_000_010, 1_800_003_599, 1_800_003_601, 1_800_007_300] {
        NOW.store(s, SeqCst);
        let t = PduHeader::calculate_dis_timestamp();
        let want = ((s % 3600) as f64 * 1e6 + 5000.0) / 1.68;
        assert!((f64::from(t) - want).abs() < want * 0.005 + 300.0, "{s} {t} {want}");
    }
}
''')

bug('option-list-stops', 'C02', 'a list of optional values with an absent one before a present one',
    'The values after the first absent one of a list are not encoded.',
    [('pdu_macro.rs', '''        for item in self {
            item.serialize_field(buf);
        }
''', '''        for item in self {
            let before = buf.len();
            item.serialize_field(buf);
            if buf.len() == before {
                break;
            }
        }
''')],
    '''
use open_dis_rust::minefield::MinefieldDataPdu;
fn main() {
    let mut p = MinefieldDataPdu::new();
    p.reflectance = vec![Some(1.0), None, Some(2.0)];
    let mut a = BytesMut::new();
    p.serialize(&mut a).unwrap();
    assert_eq!(a.len(), p.header().length as usize);
    p.reflectance = vec![Some(1.0), Some(2.0)];
    let mut b = BytesMut::new();
    p.serialize(&mut b).unwrap();
    assert_eq!(a, b);
}
''')

bug('velocity-negative-zero', 'C09', 'a velocity component that is minus zero',
    'The sign of a zero velocity component is lost in encoding.',
    [('common/data_types/linear_velocity.rs', '''        buf.put_f32(self.second_vector_component);
''', '''        buf.put_f32(self.second_vector_component + 0.0);
''')],
    '''
use open_dis_rust::common::data_types::linear_velocity::LinearVelocity;
fn main() {
    for x in [0.0f32, -0.0, 1.5, -2.5, f32::INFINITY, f32::MIN_POSITIVE] {
        let mut b = BytesMut::new();
        LinearVelocity::new(x, x, x).serialize(&mut b);
        let mut w = Vec::new();
        for _ in 0..3 { w.extend(x.to_be_bytes()); }
        assert_eq!(b[..], w[..], "{x}");
    }
}
''')

bug('double-nan-zero', 'C09', 'a coordinate on the wire that is not a number',
    'Coordinates that are not a number are decoded as zero.',
    [('common/data_types/vector3_double.rs', '''            z: buf.get_f64(),
''', '''            z: Some(buf.get_f64()).filter(|z| !z.is_nan()).unwrap_or(0.0),
''')],
    '''
use open_dis_rust::common::data_types::vector3_double::Vector3Double;
fn main() {
    for x in [0.0f64, -0.0, 1.5, f64::INFINITY, f64::NAN, f64::MIN_POSITIVE] {
        let mut b = BytesMut::new();
        for _ in 0..3 { b.put_f64(x); }
        let v = Vector3Double::deserialize(&mut b);
        assert_eq!(v.x.to_bits(), x.to_bits());
        assert_eq!(v.y.to_bits(), x.to_bits());
        assert_eq!(v.z.to_bits(), x.to_bits());
    }
}
''')

bug('string-len-chars', 'C16', 'a text field with a character that takes more than one octet',
    'The length of a text field is the number of its characters, not of its octets.',
    [('pdu_macro.rs', '''impl FieldLen for String {
    fn field_len(&self) -> usize {
        self.len()
''', '''impl FieldLen for String {
    fn field_len(&self) -> usize {
        self.chars().count()
''')],
    '''
use open_dis_rust::common::{pdu_header::PduHeader, enums::{PduType, ProtocolFamily}};
open_dis_rust::define_pdu! {
    #[derive(Debug)]
    pub struct MyPdu {
        header: PduHeader,
        pdu_type: PduType::Other,
        protocol_family: ProtocolFamily::Other,
        fields: { pub text: String, }
    }
}
fn main() {
    for t in ["", "abc", "caf\\u{e9}", "\\u{20ac}5"] {
        let mut p = MyPdu::new();
        p.text = t.to_string();
        let mut b = BytesMut::new();
        p.serialize(&mut b).unwrap();
        assert_eq!(p.header().length as usize, b.len());
        assert_eq!(p.calculate_length().unwrap() as usize, 12 + t.len());
    }
}
''')

bug('entity-id-wildcard', 'C20', 'comparing an entity identifier with the all-entities number 65535',
    'An entity identifier with the number of all entities equals every identifier of the same application.',
    [('common/data_types/entity_id.rs', '''#[derive(Copy, Clone, Debug, Default, PartialEq, Eq)]
''', '''#[derive(Copy, Clone, Debug, Default, Eq)]
'''), ('common/data_types/entity_id.rs', '''impl EntityId {
    #[must_use]
''', '''impl PartialEq for EntityId {
    fn eq(&self, other: &Self) -> bool {
        self.simulation_address == other.simulation_address
            && (self.entity_id == other.entity_id
                || self.entity_id == u16::MAX
                || other.entity_id == u16::MAX)
    }
}

impl EntityId {
    #[must_use]
''')],
    '''
use open_dis_rust::common::data_types::entity_id::EntityId;
fn main() {
    let all = [0u16, 1, 2, 255, 256, 32768, 65534, 65535];
    for a in all { for b in all {
        let x = EntityId::new(1, 2, a);
        let y = EntityId::new(1, 2, b);
        assert_eq!(x == y, a == b, "{a} {b}");
    } }
}
''')

bug('entity-type-key', 'C20', 'entity types whose countries differ by a multiple of 256',
    'Entity types are compared by a packed key that has room for the low octet of the country only.',
    [('common/data_types/entity_type.rs', '''#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
''', '''#[derive(Copy, Clone, Default, Debug, Eq)]
'''), ('common/data_types/entity_type.rs', '''impl EntityType {
''', '''impl PartialEq for EntityType {
    fn eq(&self, other: &Self) -> bool {
        self.key() == other.key()
    }
}

impl EntityType {
    const fn key(&self) -> u64 {
        u64::from_be_bytes([
            0,
            self.kind as u8,
            self.domain,
            self.country as u8,
            self.category,
            self.subcategory,
            self.specific,
            self.extra,
        ])
    }

''')],
    '''
use open_dis_rust::common::data_types::entity_type::EntityType;
fn main() {
    let mk = |c: u16| EntityType::deserialize(&mut &[1u8, 2, (c >> 8) as u8, c as u8, 3, 4, 5, 6][..]);
    for a in 0u16..500 { for b in 0u16..500 {
        let (x, y) = (mk(a), mk(b));
        assert_eq!(x == y, x.country == y.country, "{a} {b}");
    } }
}
''')

bug('header-eq-timestamp', 'C20', 'headers whose timestamps differ in the lowest bit only',
    'Headers are equal even when one timestamp is absolute and the other relative.',
    [('common/pdu_header.rs', '''#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct PduHeader {
''', '''#[derive(Copy, Clone, Debug, Eq)]
pub struct PduHeader {
'''), ('common/pdu_header.rs', '''impl Default for PduHeader {
''', '''impl PartialEq for PduHeader {
    fn eq(&self, other: &Self) -> bool {
        self.protocol_version == other.protocol_version
            && self.exercise_id == other.exercise_id
            && self.pdu_type == other.pdu_type
            && self.protocol_family == other.protocol_family
            // the lowest bit only tells absolute from relative time
            && self.timestamp >> 1 == other.timestamp >> 1
            && self.length == other.length
            && self.status_record == other.status_record
            && self.padding == other.padding
    }
}

impl Default for PduHeader {
''')],
    '''
use open_dis_rust::common::pdu_header::PduHeader;
fn main() {
    for i in 0..12 { for bit in 0..8 {
        let mut b = [0u8; 12];
        let x = PduHeader::deserialize(&mut &b[..]);
        b[i] ^= 1 << bit;
        let y = PduHeader::deserialize(&mut &b[..]);
        let (mut p, mut q) = (BytesMut::new(), BytesMut::new());
        x.serialize(&mut p);
        y.serialize(&mut q);
        assert_eq!(x == y, p == q, "octet {i} bit {bit}");
    } }
}
''')

bug('attribute-set-clone', 'C20', 'copying a record set whose count field was not kept in step with its list',
    'The copy of an attribute record set keeps only as many records as the count field says.',
    [('common/data_types/attribute_record_set.rs', '''#[derive(Clone, Debug, Default)]
''', '''#[derive(Debug, Default)]
'''), ('common/data_types/attribute_record_set.rs', '''impl AttributeRecordSet {
''', '''impl Clone for AttributeRecordSet {
    fn clone(&self) -> Self {
        Self {
            entity_id: self.entity_id,
            number_of_attribute_records: self.number_of_attribute_records,
            attribute_records: self
                .attribute_records
                .iter()
                .take(usize::from(self.number_of_attribute_records))
                .cloned()
                .collect(),
        }
    }
}

impl AttributeRecordSet {
''')],
    '''
use open_dis_rust::common::data_types::{attribute_record_set::AttributeRecordSet, attribute_record::AttributeRecord};
fn main() {
    for n in [0u16, 1, 2, 5] {
        let mut s = AttributeRecordSet::new();
        s.number_of_attribute_records = n;
        s.attribute_records = vec![AttributeRecord::default(), AttributeRecord::default()];
        assert_eq!(s.clone().attribute_records.len(), 2);
    }
}
''')
