//! the queue behind a handle cannot be reached
fn main() {
    let (client, _evloop, _n) = ruq::Client::new("127.0.0.1:1");
    let _ = client.tx;
}
