ID='C13-empty-payload-clears-retained'; PROP='C13'
NEEDS='a QoS 1 publish with an empty payload '
BREAKS='the retain flag is set although the caller did not'
EDITS=[('src/lib.rs','''                                            let pkt = protocol::Publish::at_least_once(topic, payload, retain, properties, pktid);''','''                                            // a message without payload clears the retained one
                                            let empty = match &payload {
                                                Payload::Bytes(b) => b.is_empty(),
                                                Payload::String(s) => s.is_empty(),
                                            };
                                            let retain = retain || empty;
                                            let pkt = protocol::Publish::at_least_once(topic, payload, retain, properties, pktid);''')]
MAIN='''mod h;
use h::*;
use ruq::PublishBuilder;
fn main() {
    let mut s = session();
    let b = PublishBuilder::from_bytes("t", b"").qos(ruq::QoS::AtLeastOnce);
    s.client.publish(b).unwrap();
    let p = s.pkt().expect("PUBLISH");
    check(p[0] & 0x0F == 0x02, "retain flag changed");
}
'''
