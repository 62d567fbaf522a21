//! the command type cannot be named
fn main() {
    let _ = ruq::Command::Disconnect;
}
