ID='C02-parser-sees-next-frame'; PROP='C02'
NEEDS='a PUBLISH whose frame is too short for its topic, followed in the same read by another packet'
BREAKS='the parser is given the whole receive buffer, so a field can be read out of the following packet'
EDITS=[('src/mqtt_codec.rs','let data = &src[0..total_pkt_len];','let data = &src[0..src.len().min(total_pkt_len + 8)];')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    // CONNACK-like tail missing: UNSUBACK frame without its reason byte, then a PINGRESP
    let mut b = frame(0xB0, &[0, 7, 0]);
    b.extend_from_slice(&[0x00, 0xD0, 0]);
    s.put(&b);
    let n = s.note();
    check(n.is_none(), "a field was read from the bytes of the next packet");
    check(matches!(s.ended(2000), Some(Ok(Err(_)))), "a truncated packet must be an error");
}
'''
