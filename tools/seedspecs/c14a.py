ID='C14-cumulative-puback'; PROP='C14'
NEEDS='two QoS 1 publishes in flight, acknowledged out of order'
BREAKS='acknowledging the second forgets the first, whose identifier is then never released'
EDITS=[('src/lib.rs','''                                    queue.remove(idx);''','''                                    // acks come in order: everything up to this one is done
                                    queue.drain(..=idx);''')]
MAIN='''mod h;
use h::*;
use ruq::{PublishBuilder, QoS};
fn id(p: &[u8]) -> u16 {
    let n = 4 + p[3] as usize;
    (p[n] as u16) << 8 | p[n + 1] as u16
}
fn send(s: &mut S) -> u16 {
    let b = PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce);
    s.client.publish(b).unwrap();
    id(&s.pkt().expect("PUBLISH"))
}
fn main() {
    let mut s = session();
    let a = send(&mut s);
    let b = send(&mut s);
    check(a != b, "the same identifier twice");
    for i in [b, a].iter() {
        s.put(&[0x40, 2, (i >> 8) as u8, *i as u8]);
        std::thread::sleep(std::time::Duration::from_millis(200));
    }
    // all identifiers are free again: two more publishes get the same pair
    let mut v = vec![send(&mut s), send(&mut s)];
    v.sort();
    let mut w = vec![a, b];
    w.sort();
    check(v == w, "an acknowledged identifier was not released");
}
'''
