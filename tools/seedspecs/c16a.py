ID='C16-duplicate-suppressed'; PROP='C16'
NEEDS='two QoS 1 publishes with the same identifier one after the other'
BREAKS='the second one is acknowledged and not delivered'
EDITS=[('src/lib.rs','''    let mut pingresp_received = None;
''','''    let mut pingresp_received = None;
    let mut last_in: Option<PktId> = None;
'''),
 ('src/lib.rs','''                                match m.qos() {
''','''                                let seen = m.pktid().is_some() && m.pktid() == last_in;
                                last_in = m.pktid();
                                match m.qos() {
'''),
 ('src/lib.rs','''                                    }
                                }

                                sender.send(Notification::Message(format!("{:?}", m))).await;''','''                                    }
                                }

                                // a redelivery of what the application has got already
                                if !seen {
                                    sender.send(Notification::Message(format!("{:?}", m))).await;
                                }''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    for _ in 0..2 {
        s.put(&frame(0x32, &[0, 1, b't', 0, 7, 0, b'x']));
        let a = s.pkt().expect("PUBACK");
        check(a[0] == 0x40 && a[2..4] == [0, 7], "wrong acknowledgement");
        check(s.note().is_some(), "not delivered");
    }
}
'''
