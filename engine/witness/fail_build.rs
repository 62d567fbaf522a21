//! a builder does not hand out the command it makes
fn main() {
    let _ = ruq::PublishBuilder::from_bytes("t", b"x").build();
}
