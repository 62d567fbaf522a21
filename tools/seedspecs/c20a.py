ID='C20-closed-with-publish-in-flight'; PROP='C20'
NEEDS='the broker closes the connection while a QoS 1 publish is in flight'
BREAKS='the event loop spins on the finished stream'
EDITS=[('src/lib.rs','''                        // stream done
                        return Ok(());''','''                        // stream done, unless there are acks to wait for
                        if queue.is_empty() {
                            return Ok(());
                        }''')]
MAIN='''mod h;
use h::*;
use ruq::{PublishBuilder, QoS};
fn main() {
    let mut s = session();
    let b = PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce);
    s.client.publish(b).unwrap();
    s.pkt().expect("PUBLISH");
    s.broker.shutdown(std::net::Shutdown::Write).unwrap();
    match s.ended(2000) {
        Some(Ok(Ok(()))) => {}
        e => check(false, &format!("ended with {:?}", e)),
    }
}
'''
