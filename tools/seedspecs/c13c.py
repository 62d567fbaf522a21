ID='C13-early-disconnect-swallows'; PROP='C13'
NEEDS='a command other than disconnect queued before the CONNACK'
BREAKS='the first command queued before the CONNACK is dropped'
EDITS=[('src/lib.rs','''    let mut ping = tokio::time::interval_at(
''','''    // the user may have changed their mind while we were connecting
    while let Ok(Some(cmd)) = commands_rx.try_next() {
        if let Command::Disconnect = cmd {
            let pkt = protocol::Disconnect::new();
            mqtt_write.send(protocol::Packet::Disconnect(pkt)).await?;
            return Ok(());
        }
        break;
    }

    let mut ping = tokio::time::interval_at(
''')]
MAIN='''mod h;
use h::*;
use ruq::PublishBuilder;
fn main() {
    let mut s = start();
    s.pkt().expect("CONNECT");
    s.client.publish(PublishBuilder::from_bytes("t", b"x")).unwrap();
    std::thread::sleep(std::time::Duration::from_millis(50));
    s.put(CONNACK);
    let p = s.pkt();
    check(p.map_or(false, |p| p[0] & 0xF0 == 0x30), "the PUBLISH queued before the CONNACK is not written");
}
'''
