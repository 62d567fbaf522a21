ID='C17-slow-consumer'; PROP='C17'
NEEDS='a SUBACK while the application has not drained its notifications'
BREAKS='the SUBACK notification is dropped'
EDITS=[('src/lib.rs','''                                sender.send(Notification::SubAck(format!("{:?}", m))).await;''','''                                // do not stall the connection on an application that is busy
                                if let Err(e) = sender.try_send(Notification::SubAck(format!("{:?}", m))) {
                                    if !e.is_full() {
                                        warn!("Notifications are not received any more");
                                    }
                                }''')]
MAIN='''mod h;
use h::*;
use futures::StreamExt;
use ruq::{Client, Notification};
use std::net::TcpListener;
fn main() {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let (client, evloop, mut notes_rx) = Client::new(l.local_addr().unwrap());
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let _ = rt.block_on(evloop);
    });
    let (broker, _) = l.accept().unwrap();
    broker.set_read_timeout(Some(std::time::Duration::from_millis(1500))).unwrap();
    let mut s = S { client, broker, notes: std::sync::mpsc::channel().1, end: std::sync::mpsc::channel().1 };
    s.pkt().expect("CONNECT");
    s.put(CONNACK);
    let n = 300;
    for i in 1..=n {
        s.put(&frame(0x90, &[(i >> 8) as u8, i as u8, 0, 0]));
    }
    std::thread::sleep(std::time::Duration::from_millis(500));
    s.broker.shutdown(std::net::Shutdown::Both).unwrap();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut got = 0;
    rt.block_on(async {
        while let Some(x) = notes_rx.next().await {
            if let Notification::SubAck(_) = x {
                got += 1;
            }
        }
    });
    check(got == n, "SUBACK notifications lost");
}
'''
