ID='C05-payload-drops-properties'; PROP='C05'
NEEDS='an incoming QoS 1 PUBLISH with bytes after the identifier that a too-long payload could reach'
BREAKS='the payload length leaves out the packet identifier only for DUP packets, so a redelivered message loses its last two payload bytes'
EDITS=[('src/protocol/publish.rs','        let payload_len = remaining_len - variable_header_len;','''        let payload_len = if flags.dup {
            (remaining_len - variable_header_len).saturating_sub(pktid_bytes_read)
        } else {
            remaining_len - variable_header_len
        };''')]
MAIN='''mod h;
use h::*;
fn main() {
    let mut s = session();
    s.put(&frame(0x3A, &[0, 1, b't', 0, 9, 0, 1, 2, 3, 4]));
    check(s.text().contains("Bytes([1, 2, 3, 4])"), "payload of a redelivered message was cut");
}
'''
