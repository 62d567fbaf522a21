//! neither the handle, the event loop nor the notifications keep a borrow of anything local
use ruq::{Client, PublishBuilder};
fn main() {
    let (client, evloop, n) = {
        let (mut client, evloop, n) = Client::new(std::net::SocketAddr::from(([127, 0, 0, 1], 1)));
        let topic = String::from("t");
        let _ = client.subscribe(&topic, ruq::QoS::AtMostOnce);
        let _ = client.unsubscribe(&topic);
        let payload = vec![1u8];
        let b = PublishBuilder::from_bytes(&topic, &payload);
        drop((topic, payload));
        let _ = client.publish(b.qos(ruq::QoS::AtLeastOnce));
        (client, evloop, n)
    };
    let boxed: Box<dyn std::any::Any> = Box::new(client);
    drop((boxed, evloop, n));
}
