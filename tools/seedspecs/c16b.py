ID='C16-puback-when-delivered'; PROP='C16'
NEEDS='a QoS 1 publish after the application dropped its notification stream'
BREAKS='the publish is never acknowledged'
EDITS=[('src/lib.rs','''                                        mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;''','''                                        // nobody is there to take it: let the broker keep the message
                                        if !sender.is_closed() {
                                            mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                        }''')]
MAIN='''mod h;
use h::*;
use ruq::Client;
use std::net::TcpListener;
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let (client, evloop, notes_rx) = Client::new(l.local_addr().unwrap());
    drop(notes_rx);
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let _ = rt.block_on(evloop);
    });
    let (broker, _) = l.accept().unwrap();
    broker.set_read_timeout(Some(std::time::Duration::from_millis(1500))).unwrap();
    let mut s = S { client, broker, notes: std::sync::mpsc::channel().1, end: std::sync::mpsc::channel().1 };
    s.pkt().expect("CONNECT");
    s.put(CONNACK);
    s.put(&frame(0x32, &[0, 1, b't', 0, 7, 0, b'x']));
    let a = s.pkt();
    check(a.map_or(false, |a| a[0] == 0x40), "not acknowledged");
}
'''
