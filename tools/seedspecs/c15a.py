ID='C15-vacant-search-off-by-one'; PROP='C15'
NEEDS='a range other than the last one was used up, and then an identifier is returned between two other free ranges'
BREAKS='the node of the last free range is overwritten: its identifiers are lost, and the list runs in a circle'
EDITS=[('src/pktids.rs','''                // no way we could extend already existing ranges, insert new node between prev_idx and next_idx
                // 1. find vacant node (or add it)
                let vacant_idx = match self.ranges[1..]
                    .iter()
                    .position(|node| matches!(node, Node::Vacant))
                {
                    Some(v) => v + 1,
''','''                // no way we could extend already existing ranges, insert new node between prev_idx and next_idx
                // 1. find vacant node (or add it), never the first one: it ends the list
                let vacant_idx = match self.ranges[1..]
                    .iter()
                    .position(|node| matches!(node, Node::Vacant))
                {
                    Some(v) => v.max(1),
''')]
MAIN='''mod h;
use h::*;
use ruq::PublishBuilder;
fn main() {
    let mut s = session();
    let send = |s: &mut S| -> Option<u16> {
        s.client.publish(PublishBuilder::from_bytes("t", b"x").qos(ruq::QoS::AtLeastOnce)).ok()?;
        let p = s.pkt()?;
        Some(u16::from_be_bytes([p[5], p[6]]))
    };
    let ack = |s: &mut S, i: u16| {
        let i = i.to_be_bytes();
        s.put(&[0x40, 2, i[0], i[1]]);
        std::thread::sleep(std::time::Duration::from_millis(50));
    };
    let mut busy = vec![];
    for _ in 0..9 {
        busy.push(send(&mut s).expect("PUBLISH"));
    }
    let mut done = |s: &mut S, busy: &mut Vec<u16>, i: u16| {
        busy.retain(|x| *x != i);
        ack(s, i);
    };
    done(&mut s, &mut busy, 1);
    done(&mut s, &mut busy, 3);
    busy.push(send(&mut s).expect("PUBLISH"));
    done(&mut s, &mut busy, 5);
    for n in 0..6 {
        match send(&mut s) {
            Some(i) => {
                check(i != 0 && !busy.contains(&i), &format!("identifier {} is in use already: {:?}", i, busy));
                busy.push(i);
            }
            None => check(false, &format!("no identifier for publish {} although most are free", n)),
        }
    }
}
'''
