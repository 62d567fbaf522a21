ID='C13-backlog-loses-command'; PROP='C13'
NEEDS='a subscribe that finds another command already waiting behind it in the queue'
BREAKS='the command behind it is taken from the queue and never written'
EDITS=[('src/lib.rs','''                            mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;''','''                            // flush once for a run of subscribes
                            mqtt_write.feed(protocol::Packet::Subscribe(pkt)).await?;
                            while let Ok(Some(next)) = commands_rx.try_next() {
                                if let Command::Subscribe(topic, qos) = next {
                                    if let Some(pktid) = pktids.next_id() {
                                        let pkt = protocol::Subscribe::new(&topic, pktid, qos);
                                        mqtt_write.feed(protocol::Packet::Subscribe(pkt)).await?;
                                    }
                                }
                            }
                            mqtt_write.flush().await?;''')]
MAIN='''mod h;
use h::*;
use ruq::{PublishBuilder, QoS};
fn main() {
    let mut s = start();
    s.client.subscribe("a", QoS::AtMostOnce).unwrap();
    s.client.subscribe("b", QoS::AtMostOnce).unwrap();
    s.client.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    s.pkt().expect("CONNECT");
    s.put(CONNACK);
    let k: Vec<u8> = (0..3).filter_map(|_| s.pkt()).map(|p| p[0] >> 4).collect();
    check(k == [8, 8, 3], "not one packet per command");
}
'''
