ID='C03-vbi-encode-top-bits'; PROP='C03'
NEEDS='an outgoing packet of at least 2 MiB'
BREAKS='the fourth byte of an encoded length is lost'
EDITS=[('src/protocol/mod.rs','            n = n / 128;\n','            n = (n / 128) & 0x3fff;\n')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    let v = vec![7u8; 2 * 1024 * 1024 + 100];
    s.client.publish(ruq::PublishBuilder::from_bytes("t", &v)).unwrap();
    let p = s.pkt().unwrap_or_default();
    check(p.len() == v.len() + 5 + 3 + 3, "length prefix of a large packet is wrong");
}
'''
