ID='C23-empty-text-format'; PROP='C23'
NEEDS='a text publish with an empty payload'
BREAKS='the payload format indicator says bytes'
EDITS=[('src/client.rs','''            properties: vec![Property::PayloadFormatId(0x01)],''','''            properties: vec![Property::PayloadFormatId(u8::from(!payload.is_empty()))],''')]
MAIN='''mod h;
use h::*;
use ruq::PublishBuilder;
fn main() {
    let mut s = session();
    for t in ["x", ""] {
        s.client.publish(PublishBuilder::from_str("t", t)).unwrap();
        let p = s.pkt().unwrap_or_default();
        check(p.len() == 8 + t.len() && p[6..8] == [1, 1], "payload format of a text is not 1");
    }
}
'''
