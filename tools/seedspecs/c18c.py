ID='C18-no-ping-while-busy'; PROP='C18'
NEEDS='eight QoS 1 publishes whose acknowledgements do not come'
BREAKS='no PINGREQ is sent, and the dead broker is not noticed'
EDITS=[('src/lib.rs','''            _ = ping.tick() => {
''','''            // publishes in flight show whether the broker is there
            _ = ping.tick(), if queue.len() < 8 => {
''')]
MAIN='''mod h;
use h::*;
use ruq::PublishBuilder;
fn main() {
    let mut s = session();
    for _ in 0..8 {
        loop {
            if s.client.publish(PublishBuilder::from_bytes("t", b"x").qos(ruq::QoS::AtLeastOnce)).is_ok() {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        s.pkt().expect("PUBLISH");
    }
    s.broker.set_read_timeout(Some(std::time::Duration::from_millis(10500))).unwrap();
    let p = s.pkt();
    check(p.map_or(false, |p| p[0] == 0xC0), "no PINGREQ on the tick");
}
'''
