//! wire packets cannot be named
fn main() {
    let _ = std::mem::size_of::<ruq::protocol::Packet>();
}
