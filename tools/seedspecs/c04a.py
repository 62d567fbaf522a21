ID='C04-auth-as-disconnect'; PROP='C04'
NEEDS='an AUTH packet from the broker'
BREAKS='type 15 is parsed as a DISCONNECT, so an unsupported packet looks like a normal end of the session'
EDITS=[('src/protocol/mod.rs','            15 => Ok(PacketType::Auth),\n','            15 => Ok(PacketType::Disconnect),\n')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.put(&[0xF0, 0]);
    check(matches!(s.ended(2000), Some(Ok(Err(_)))), "AUTH must be an error");
}
'''
