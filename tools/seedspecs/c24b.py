ID='C24-refused-connect-waits'; PROP='C24'
NEEDS='nothing listens at the address: the connect is refused'
BREAKS='the future stays pending for ever instead of failing'
EDITS=[('src/lib.rs','''                        Poll::Pending => {
                            return Poll::Pending;
                        }
''','''                        // not up yet
                        Poll::Ready(Err(e)) if e.kind() == ErrorKind::ConnectionRefused => {
                            return Poll::Pending;
                        }
                        Poll::Pending => {
                            return Poll::Pending;
                        }
'''),('src/lib.rs','''                        Poll::Ready(Err(e)) => {
                            return Poll::Ready(Err(anyhow!(
                                "Failed to connect, reason = {:?}",
                                e
                            )));
                        }
''',''),('src/lib.rs','''                        Poll::Ready(Ok(tcp_stream)) => {
''','''                        Poll::Ready(Err(e)) => {
                            return Poll::Ready(Err(anyhow!(
                                "Failed to connect, reason = {:?}",
                                e
                            )));
                        }
                        Poll::Ready(Ok(tcp_stream)) => {
''')]
MAIN='''mod h;
use h::*;
fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap().to_string();
    drop(l);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let (_c, el, _n) = ruq::Client::new(a);
        let r = rt.block_on(el);
        let _ = tx.send(r.is_err());
    });
    match rx.recv_timeout(std::time::Duration::from_secs(5)) {
        Ok(true) => {}
        x => check(false, &format!("connect refused: {:?}", x)),
    }
}
'''
