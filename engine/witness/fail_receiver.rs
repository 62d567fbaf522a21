//! the receiving end of the queue cannot be reached
fn main() {
    let (_client, evloop, _n) = ruq::Client::new("127.0.0.1:1");
    let _ = evloop.commands_rx;
}
