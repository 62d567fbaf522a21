//! the event loop is a future that can be spawned on a multi-threaded executor, whatever the address type
use ruq::Client;
use tokio::net::ToSocketAddrs;
fn spawnable<F>(_: F)
where
    F: std::future::Future + Send + 'static,
    F::Output: Send + 'static,
{
}
fn outcome<F: std::future::Future<Output = Result<(), E>>, E: std::fmt::Display + Send + Sync + 'static>(_: &F) {}
fn any<A>(a: A)
where
    A: ToOwned + 'static,
    A::Owned: ToSocketAddrs + Clone + Send + 'static,
{
    let (_client, evloop, _n) = Client::new(a);
    outcome(&evloop);
    spawnable(evloop);
}
fn main() {
    any("127.0.0.1:1");
    any(std::net::SocketAddr::from(([127, 0, 0, 1], 1)));
    any(String::from("127.0.0.1:1"));
}
