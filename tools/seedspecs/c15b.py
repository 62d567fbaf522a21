ID='C15-middle-insert-cuts-list'; PROP='C15'
NEEDS='an identifier is returned between two free ranges and touches neither'
BREAKS='all the free ranges after it are lost: identifiers run out although almost all are free'
EDITS=[('src/pktids.rs','''                self.ranges[vacant_idx] = Node::Taken {
                    range: id..=id,
                    next: next_idx,
                };
''','''                let (range, next) = (id..=id, prev_idx.saturating_sub(next_idx));
                self.ranges[vacant_idx] = Node::Taken { range, next };
''')]
MAIN='''mod h;
use h::*;
use ruq::PublishBuilder;
fn main() {
    let mut s = session();
    let mut ids = vec![];
    let mut send = |s: &mut S| -> Option<u16> {
        s.client.publish(PublishBuilder::from_bytes("t", b"x").qos(ruq::QoS::AtLeastOnce)).ok()?;
        let p = s.pkt()?;
        Some(u16::from_be_bytes([p[5], p[6]]))
    };
    for _ in 0..9 {
        ids.push(send(&mut s).expect("PUBLISH"));
    }
    for k in [0usize, 2, 4] {
        let i = ids[k].to_be_bytes();
        s.put(&[0x40, 2, i[0], i[1]]);
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    let mut busy: Vec<u16> = [1usize, 3, 5, 6, 7, 8].iter().map(|k| ids[*k]).collect();
    for n in 0..12 {
        match send(&mut s) {
            Some(i) => {
                check(i != 0 && !busy.contains(&i), &format!("identifier {} is in use already: {:?}", i, busy));
                busy.push(i);
            }
            None => check(false, &format!("no identifier for publish {} although most are free", n)),
        }
    }
}
'''
