ID='C06-suback-reason-swapped'; PROP='C06'
NEEDS='a SUBACK with reason 0x9E or 0xA1'
BREAKS='two SUBACK reason codes are exchanged'
EDITS=[('src/protocol/suback.rs','            158 => Ok(Self::SharedSubsNotSupported),\n            161 => Ok(Self::SubIdsNotSupported),','            161 => Ok(Self::SharedSubsNotSupported),\n            158 => Ok(Self::SubIdsNotSupported),')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.client.subscribe("a", ruq::QoS::AtMostOnce).unwrap();
    s.pkt();
    s.put(&frame(0x90, &[0, 1, 0, 0x9E]));
    check(s.text().contains("SharedSubsNotSupported"), "0x9E is SharedSubsNotSupported");
}
'''
