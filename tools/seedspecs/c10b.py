ID='C10-property-length-byte'; PROP='C10'
NEEDS='a property list that takes 128 to 255 bytes'
BREAKS='the property length is written as one plain byte, which a reader takes for the first half of a longer integer'
EDITS=[('src/protocol/properties.rs','''        let len: VBI = (buf.len() as u32).into();
        header.extend_from_slice(&len.convert_to_mqtt());
        header.extend_from_slice(&buf);
        header''','''        match buf.len() {
            n if n <= u8::MAX as usize => header.push(n as u8),
            _ => {
                let len: VBI = (buf.len() as u32).into();
                header.extend_from_slice(&len.convert_to_mqtt());
            }
        }
        header.extend_from_slice(&buf);
        header''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    for n in [10usize, 150] {
        s.client
            .publish(ruq::PublishBuilder::from_bytes("t", b"x").with_property(ruq::Property::ResponseTopic("r".repeat(n))))
            .unwrap();
        let p = s.pkt().unwrap_or_default();
        let at = if p[1] & 128 == 0 { 5 } else { 6 };
        let want = n + 5;
        let have = if p[at] & 128 == 0 { p[at] as usize } else { (p[at] & 127) as usize + 128 * p[at + 1] as usize };
        check(have == want && p.len() == at + (if have < 128 { 1 } else { 2 }) + want + 1, "property length does not decode to the length of the properties");
    }
}
'''
