ID='C12-keepalive-before-connack'; PROP='C12'
NEEDS='a broker that sends PINGRESP before anything else'
BREAKS='the session starts, and user commands are written, without a CONNACK'
EDITS=[('src/lib.rs','''            error!("Expected connack, received: {:?}", pkt);
            return''','''            error!("Expected connack, received: {:?}", pkt);
            // harmless, nothing was asked for yet
            if !matches!(pkt, protocol::Packet::PingResp(_)) {
                return'''),
 ('src/lib.rs','''Err(IOError::new(ErrorKind::InvalidData, "Unexpected packet"));
''','''Err(IOError::new(ErrorKind::InvalidData, "Unexpected packet"));
            }
''')]
MAIN='''mod h;
use h::*;
use ruq::PublishBuilder;
fn main() {
    let mut s = start();
    s.client.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    s.pkt().expect("CONNECT");
    s.put(&[0xD0, 0]);
    let p = s.pkt();
    check(p.is_none(), "something was written before a CONNACK");
    check(matches!(s.ended(3000), Some(Ok(Err(_)))), "the event loop did not end with an error");
}
'''
