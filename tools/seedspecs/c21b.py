ID='C21-puback-properties'; PROP='C21'
NEEDS='a second PUBACK for the same publish'
BREAKS='the event loop panics'
EDITS=[('src/lib.rs','''                                    warn!("Failed to find message to ack in the queue");''','''                                    // an ack we did not wait for must be for something older
                                    let (oldest, _) = queue.front().expect("Nothing in flight");
                                    warn!("Failed to find message to ack in the queue, oldest is {}", oldest);''')]
MAIN='''mod h;
use h::*;
use ruq::{PublishBuilder, QoS};
fn main() {
    let mut s = session();
    let b = PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce);
    s.client.publish(b).unwrap();
    let p = s.pkt().expect("PUBLISH");
    let n = 4 + p[3] as usize;
    for _ in 0..2 {
        s.put(&[0x40, 2, p[n], p[n + 1]]);
    }
    s.put(&frame(0x30, &[0, 1, b't', 0, b'x']));
    check(s.note().is_some(), "the event loop is gone");
}
'''
