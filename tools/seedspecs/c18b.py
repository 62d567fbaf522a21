ID='C18-idle-ping'; PROP='C18'
NEEDS='an incoming publish between two ticks, then a silent broker'
BREAKS='the tick after traffic sends no PINGREQ'
EDITS=[('src/lib.rs','''    let mut pingresp_received = None;
''','''    let mut pingresp_received = None;
    let mut traffic = false;
'''),
 ('src/lib.rs','''                let pkt = protocol::PingReq::new();
                mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
                pingresp_received = Some(false);''','''                // no need to ask a broker that has just talked to us
                if !std::mem::replace(&mut traffic, false) {
                    let pkt = protocol::PingReq::new();
                    mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
                    pingresp_received = Some(false);
                }'''),
 ('src/lib.rs','''                            protocol::Packet::Publish(m) => {
''','''                            protocol::Packet::Publish(m) => {
                                traffic = true;
''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.put(&frame(0x30, &[0, 1, b't', 0, b'x']));
    s.broker.set_read_timeout(Some(std::time::Duration::from_millis(10500))).unwrap();
    let p = s.pkt();
    check(p.map_or(false, |p| p[0] == 0xC0), "no PINGREQ on the tick");
}
'''
