ID='C14-identifiers-renewed'; PROP='C14'
NEEDS='a SUBSCRIBE still unanswered when the last PUBLISH in flight is acknowledged'
BREAKS='the identifier of the unanswered SUBSCRIBE is given to another packet'
EDITS=[('src/lib.rs','''                                    queue.remove(idx);
''','''                                    queue.remove(idx);
                                    if queue.is_empty() {
                                        // nothing is in flight: start afresh, without the fragments
                                        pktids = pktids::PktIds::new();
                                        continue;
                                    }
''')]
MAIN='''mod h;
use h::*;
use ruq::PublishBuilder;
fn main() {
    let mut s = session();
    s.client.subscribe("a", ruq::QoS::AtLeastOnce).unwrap();
    let sub = s.pkt().expect("SUBSCRIBE");
    s.client.publish(PublishBuilder::from_bytes("t", b"x").qos(ruq::QoS::AtLeastOnce)).unwrap();
    let p = s.pkt().expect("PUBLISH");
    s.put(&[0x40, 2, p[5], p[6]]);
    std::thread::sleep(std::time::Duration::from_millis(100));
    s.client.subscribe("b", ruq::QoS::AtLeastOnce).unwrap();
    let sub2 = s.pkt().expect("second SUBSCRIBE");
    check(sub[2..4] != sub2[2..4], "the identifier of an unanswered SUBSCRIBE is used again");
}
'''
