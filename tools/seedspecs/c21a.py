ID='C21-topic-prefix-in-log'; PROP='C21'
NEEDS='a subscribe to a topic of more than 16 bytes with a character across byte 16'
BREAKS='the event loop panics'
EDITS=[('src/lib.rs','''                        Command::Subscribe(topic, qos) => {
''','''                        Command::Subscribe(topic, qos) => {
                            let short = if topic.len() > 16 { &topic[..16] } else { &topic };
                            info!("Subscribing to {}", short);
''')]
MAIN='''mod h;
use h::*;
use ruq::QoS;
fn main() {
    let mut s = session();
    let topic = "0123456789abcde\\u{e9}/x";
    s.client.subscribe(topic, QoS::AtMostOnce).unwrap();
    check(s.pkt().map_or(false, |p| p[0] == 0x82), "no SUBSCRIBE");
}
'''
