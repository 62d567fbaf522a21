ID='C09-short-remaining-length'; PROP='C09'
NEEDS='a PUBLISH whose remaining length is exactly 128'
BREAKS='the remaining length 128 is written as the single byte 0x80'
EDITS=[('src/protocol/publish.rs','''        let len_vbi = VBI(buf.len() as u32).convert_to_mqtt();
        header.extend_from_slice(&len_vbi);
        header.extend_from_slice(&buf);
''','''        if buf.len() <= 128 {
            header.push(buf.len() as u8);
        } else {
            let len_vbi = VBI(buf.len() as u32).convert_to_mqtt();
            header.extend_from_slice(&len_vbi);
        }
        header.extend_from_slice(&buf);
''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    for n in 110..130 {
        s.client.publish(ruq::PublishBuilder::from_bytes("t", &vec![7u8; n])).unwrap();
        let p = s.pkt().unwrap_or_default();
        let head = if 6 + n < 128 { 2 } else { 3 };
        check(p.len() == head + 6 + n, "remaining length is wrong");
    }
}
'''
