ID='C22-qos0-full-queue'; PROP='C22'
NEEDS='a QoS 0 publish while the command queue is full'
BREAKS='the publish is dropped and reported as success'
EDITS=[('src/client.rs','''            .try_send(publish_builder.build())
            .with_context(|| "Publish chan send failed")''','''            .try_send(publish_builder.build())
            .or_else(|e| {
                let full = e.is_full();
                match e.into_inner() {
                    // at most once: may be dropped when there is no room
                    Command::Publish { qos: QoS::AtMostOnce, .. } if full => Ok(()),
                    _ => Err(Error::msg("Publish chan send failed")),
                }
            })''')]
MAIN='''use ruq::{Client, PublishBuilder};
fn main() {
    let (mut client, evloop, _n) = Client::new("127.0.0.1:1");
    let mut ok = 0;
    for _ in 0..500 {
        if client.publish(PublishBuilder::from_bytes("t", b"x")).is_ok() {
            ok += 1;
        }
    }
    drop(evloop);
    if ok >= 500 {
        println!("FAILED: success for a publish that was not queued");
        std::process::exit(1);
    }
}
'''
