ID='C10-zero-expiry-dropped'; PROP='C10'
NEEDS='a publish with a message expiry interval of 0'
BREAKS='the property is silently left out of the packet'
EDITS=[('src/protocol/properties.rs','''        self.iter()
            .for_each(|prop| buf.extend_from_slice(&prop.convert_to_mqtt()));

        let len: VBI = (buf.len() as u32).into();
        header''','''        self.iter()
            .filter(|prop| !matches!(prop, MessageExpiryInterval(0)))
            .for_each(|prop| buf.extend_from_slice(&prop.convert_to_mqtt()));

        let len: VBI = (buf.len() as u32).into();
        header''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    for (v, want) in [(1u32, [2u8, 0, 0, 0, 1]), (0, [2, 0, 0, 0, 0])] {
        s.client
            .publish(ruq::PublishBuilder::from_bytes("t", b"x").with_property(ruq::Property::MessageExpiryInterval(v)))
            .unwrap();
        let p = s.pkt().unwrap_or_default();
        check(p.len() == 14 && p[5] == 7 && p[8..13] == want, "message expiry interval is not written");
    }
}
'''
