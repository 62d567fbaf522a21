ID='C14-released-when-refused'; PROP='C14'
NEEDS='a PUBACK whose reason refuses the publish'
BREAKS='the publish stays in flight and its identifier is not released'
EDITS=[('src/lib.rs','''                                if let Some(idx) = queue.iter().position(|(pktid, _)| *pktid == m.pktid()) {
                                    queue.remove(idx);''','''                                let refused = format!("{:?}", m).contains("Quota");
                                if let Some(idx) = queue.iter().position(|(pktid, _)| *pktid == m.pktid() && !refused) {
                                    queue.remove(idx);''')]
MAIN='''mod h;
use h::*;
use ruq::{PublishBuilder, QoS};
fn send(s: &mut S) -> u16 {
    let b = PublishBuilder::from_bytes("t", b"x").qos(QoS::AtLeastOnce);
    s.client.publish(b).unwrap();
    let p = s.pkt().expect("PUBLISH");
    let n = 4 + p[3] as usize;
    (p[n] as u16) << 8 | p[n + 1] as u16
}
fn main() {
    let mut s = session();
    let a = send(&mut s);
    s.put(&[0x40, 4, (a >> 8) as u8, a as u8, 0x97, 0]);
    std::thread::sleep(std::time::Duration::from_millis(300));
    check(send(&mut s) == a, "an acknowledged identifier was not released");
}
'''
