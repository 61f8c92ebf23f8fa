use bromine::prelude::*;
use bromine::prelude::encrypted::*;
use bromine::event::EventType;
use bromine::error_event::ErrorEventData;
use bytes::Bytes;
use futures::StreamExt;
use std::io::Cursor;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt, AsyncRead, AsyncWrite};
use tokio::net::{UnixListener, UnixStream, TcpListener, TcpStream};
use x25519_dalek::{PublicKey, StaticSecret};
use std::path::PathBuf;

fn sock(name: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("repro-{}-{}", std::process::id(), name));
    let _ = std::fs::remove_file(&d);
    d
}
struct Raw(Vec<u8>);
impl IntoPayload for Raw { fn into_payload(self, _: &Context) -> IPCResult<Bytes> { Ok(Bytes::from(self.0)) } }

async fn raw_server(p: &PathBuf) -> UnixListener { UnixListener::bind(p).unwrap() }

#[tokio::test]
async fn end_constructor() {
    let e = Event::end(None, "x".into(), Bytes::new(), 1);
    assert_eq!(e.event_type(), EventType::End);
}
#[tokio::test]
async fn frame_underflow() {
    let mut b = vec![]; b.extend(1u64.to_be_bytes()); b.extend(20u16.to_be_bytes()); b.extend([0u8; 64]);
    assert!(Event::from_async_read(&mut Cursor::new(b)).await.is_err());
}
#[tokio::test]
async fn frame_huge() {
    let mut ev = Event::initiator(None, "x".into(), Bytes::new()).into_bytes().unwrap().to_vec();
    ev[0..8].copy_from_slice(&(u64::MAX).to_be_bytes());
    assert!(Event::from_async_read(&mut Cursor::new(ev)).await.is_err());
}
#[test]
fn tandem_huge() {
    let b = u64::MAX.to_be_bytes();
    assert!(TandemPayload::<BytePayload, BytePayload>::from_payload(&b[..]).is_err());
}
#[tokio::test]
async fn long_name() {
    let r = Event::initiator(None, "x".repeat(70000), Bytes::new()).into_bytes();
    match r { Err(_) => {}, Ok(b) => {
        let e = Event::from_async_read(&mut Cursor::new(b.to_vec())).await.unwrap();
        assert_eq!(e.name().len(), 70000);
    } }
}
#[tokio::test]
async fn stream_repoll_after_timeout() {
    let p = sock("repoll");
    let l = raw_server(&p).await;
    let ctx = IPCBuilder::<UnixListener>::new().address(p).build_client().await.unwrap();
    let _c = l.accept().await.unwrap();
    let mut s = ctx.emit("a", Raw(vec![])).stream_replies().with_timeout(Duration::from_millis(20)).await.unwrap();
    assert!(s.next().await.unwrap().is_err());
    assert!(s.next().await.is_none());
}
// a late reply to a timed out request still has to be routed to its own namespace
#[tokio::test]
async fn late_reply_namespace() {
    use std::sync::atomic::*; use std::sync::Arc;
    let p = sock("late");
    let l = raw_server(&p).await;
    let (g, n) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let (g2, n2) = (g.clone(), n.clone());
    let ctx = IPCBuilder::<UnixListener>::new().address(p)
        .on("r", move |_c, _e| { let g = g2.clone(); Box::pin(async move { g.fetch_add(1, Ordering::SeqCst); Ok(Response::empty()) }) })
        .namespace("ns")
        .on("r", move |_c, _e| { let g = n2.clone(); Box::pin(async move { g.fetch_add(1, Ordering::SeqCst); Ok(Response::empty()) }) })
        .build()
        .build_client().await.unwrap();
    let (mut c, _) = l.accept().await.unwrap();
    assert!(ctx.emit("a", Raw(vec![])).await_reply().with_timeout(Duration::from_millis(20)).await.is_err());
    let e = Event::from_async_read(&mut c).await.unwrap();
    let r = Event::response(Some("ns".into()), "r".into(), Bytes::new(), e.id());
    c.write_all(&r.into_bytes().unwrap()).await.unwrap();
    tokio::time::sleep(Duration::from_millis(100)).await;
    assert_eq!((g.load(Ordering::SeqCst), n.load(Ordering::SeqCst)), (0, 1));
}
#[tokio::test]
async fn unknown_namespace() {
    use std::sync::atomic::*; use std::sync::Arc;
    let p = sock("unk");
    let g = Arc::new(AtomicUsize::new(0)); let g2 = g.clone();
    let l = raw_server(&p).await;
    let _ctx = IPCBuilder::<UnixListener>::new().address(p)
        .on("r", move |_c, _e| { let g = g2.clone(); Box::pin(async move { g.fetch_add(1, Ordering::SeqCst); Ok(Response::empty()) }) })
        .build_client().await.unwrap();
    let (mut c, _) = l.accept().await.unwrap();
    let r = Event::initiator(Some("nope".into()), "r".into(), Bytes::new());
    let id = r.id();
    c.write_all(&r.into_bytes().unwrap()).await.unwrap();
    let e = tokio::time::timeout(Duration::from_secs(1), Event::from_async_read(&mut c)).await.unwrap().unwrap();
    assert_eq!(e.reference_id(), Some(id));
    assert_eq!(g.load(Ordering::SeqCst), 0);
}
#[tokio::test]
async fn dangling_end_after_drop() {
    // END for a request whose waiter is gone must be dropped, not answered
    let p = sock("dang");
    let l = raw_server(&p).await;
    let ctx = IPCBuilder::<UnixListener>::new().address(p).build_client().await.unwrap();
    let (mut c, _) = l.accept().await.unwrap();
    assert!(ctx.emit("a", Raw(vec![])).await_reply().with_timeout(Duration::from_millis(20)).await.is_err());
    let e = Event::from_async_read(&mut c).await.unwrap();
    let mut b = Event::response(None, "end".into(), Bytes::new(), e.id()).into_bytes().unwrap().to_vec();
    b[8 + 2 + 3 + 8] = 2; // End
    c.write_all(&b).await.unwrap();
    let r = tokio::time::timeout(Duration::from_millis(200), Event::from_async_read(&mut c)).await;
    assert!(r.is_err(), "answered an end event: {:?}", r);
}
#[tokio::test]
async fn stream_ends_after_error() {
    let p = sock("err");
    let p2 = p.clone();
    tokio::spawn(async move { IPCBuilder::<UnixListener>::new().address(p2)
        .on("a", |_c, _e| Box::pin(async move { Err(IPCError::from("x")) })).build_server().await });
    tokio::time::sleep(Duration::from_millis(50)).await;
    let ctx = IPCBuilder::<UnixListener>::new().address(p).build_client().await.unwrap();
    let mut s = ctx.emit("a", Raw(vec![])).stream_replies().with_timeout(Duration::from_millis(500)).await.unwrap();
    let e = s.next().await.unwrap().unwrap();
    assert_eq!(e.event_type(), EventType::Error);
    assert!(s.next().await.is_none());
}
fn enc(secret: &StaticSecret, peers: Vec<PublicKey>) -> EncryptionOptions<()> {
    EncryptionOptions { keys: Keys { secret: secret.clone(), known_peers: peers, allow_unknown: false }, inner_options: () }
}
#[tokio::test]
async fn unknown_peer_keeps_server() {
    let p = sock("peer");
    let (a, b, x) = (bromine::utils::generate_secret(), bromine::utils::generate_secret(), bromine::utils::generate_secret());
    let p2 = p.clone(); let (a2, b2) = (a.clone(), PublicKey::from(&b));
    tokio::spawn(async move { IPCBuilder::<EncryptedListener<UnixListener>>::new().address(p2).server_options(enc(&a2, vec![b2])).build_server().await });
    tokio::time::sleep(Duration::from_millis(50)).await;
    let pa = PublicKey::from(&a);
    assert!(IPCBuilder::<EncryptedListener<UnixListener>>::new().address(p.clone()).client_options(enc(&x, vec![pa])).build_client().await.is_err());
    tokio::time::timeout(Duration::from_secs(1), IPCBuilder::<EncryptedListener<UnixListener>>::new().address(p.clone()).client_options(enc(&b, vec![pa])).build_client()).await.unwrap().unwrap();
}
async fn enc_pair(name: &str) -> (EncryptedStream<UnixStream>, EncryptedStream<UnixStream>) {
    let p = sock(name);
    let (a, b) = (bromine::utils::generate_secret(), bromine::utils::generate_secret());
    let (pa, pb) = (PublicKey::from(&a), PublicKey::from(&b));
    let l = <EncryptedListener<UnixListener> as AsyncStreamProtocolListener>::protocol_bind(p.clone(), enc(&a, vec![pb])).await.unwrap();
    let c = tokio::spawn(async move { <EncryptedStream<UnixStream> as AsyncProtocolStream>::protocol_connect(p, enc(&b, vec![pa])).await.unwrap() });
    let (s, _) = l.protocol_accept().await.unwrap();
    (s, c.await.unwrap())
}
#[tokio::test]
async fn enc_straddling_read() {
    let t0 = std::time::Instant::now();
    let (mut s, mut c) = enc_pair("strad").await;
    tokio::time::timeout(Duration::from_secs(2), async move {
        c.write_all(b"hello").await.unwrap(); c.flush().await.unwrap();
        c.write_all(b"world").await.unwrap(); c.flush().await.unwrap();
        let mut b = [0u8; 10]; s.read_exact(&mut b).await.unwrap();
        assert_eq!(&b, b"helloworld");
    }).await.unwrap();
    assert!(t0.elapsed() < Duration::from_secs(1));
}
#[tokio::test]
async fn enc_short_read() {
    let (mut s, mut c) = enc_pair("short").await;
    tokio::time::timeout(Duration::from_secs(2), async move {
        c.write_all(b"hello").await.unwrap(); c.flush().await.unwrap();
        let mut b = [0u8; 100]; let n = s.read(&mut b).await.unwrap();
        assert_eq!(&b[..n], b"hello");
    }).await.unwrap();
}
#[tokio::test]
async fn enc_read_error_repoll() {
    let (mut s, c) = enc_pair("rerr").await;
    drop(c);
    let mut b = [0u8; 4];
    assert!(s.read_exact(&mut b).await.is_err());
    assert!(s.read_exact(&mut b).await.is_err());
}
#[tokio::test]
async fn enc_shutdown() {
    let t0 = std::time::Instant::now();
    let (_s, mut c) = enc_pair("shut").await;
    tokio::time::timeout(Duration::from_secs(2), async move { c.write_all(b"x").await.unwrap(); c.shutdown().await.unwrap(); }).await.unwrap();
    assert!(t0.elapsed() < Duration::from_secs(1));
}
#[tokio::test]
async fn enc_cancelled_write() {
    let (mut s, mut c) = enc_pair("cancel").await;
    let big = vec![7u8; 8 << 20];
    // blocks as nobody is reading, then is given up
    let r = tokio::time::timeout(Duration::from_millis(100), async { c.write_all(&big).await?; c.flush().await }).await;
    assert!(r.is_err());
    let t = tokio::spawn(async move { let mut v = vec![0u8; (8 << 20) + 5]; s.read_exact(&mut v).await.unwrap(); v });
    tokio::time::timeout(Duration::from_secs(2), async { c.write_all(b"hello").await.unwrap(); c.flush().await.unwrap() }).await.unwrap();
    let v = tokio::time::timeout(Duration::from_secs(2), t).await.unwrap().unwrap();
    assert_eq!(&v[8 << 20..], b"hello");
}
#[tokio::test]
async fn enc_cancelled_flush() {
    let (mut s, mut c) = enc_pair("cancelf").await;
    let big = vec![7u8; 8 << 20];
    let r = tokio::time::timeout(Duration::from_millis(100), async { c.write_all(&big).await }).await;
    drop(r);
    let r = tokio::time::timeout(Duration::from_millis(100), async { c.flush().await }).await;
    assert!(r.is_err());
    let t = tokio::spawn(async move { let mut v = vec![0u8; (8 << 20) + 5]; s.read_exact(&mut v).await.unwrap(); v });
    tokio::time::timeout(Duration::from_secs(2), async { c.write_all(b"hello").await.unwrap(); c.flush().await.unwrap() }).await.unwrap();
    let v = tokio::time::timeout(Duration::from_secs(2), t).await.unwrap().unwrap();
    assert_eq!(&v[8 << 20..], b"hello");
}
mod flaky {
    use super::*;
    pub struct Flaky(UnixListener, std::sync::atomic::AtomicBool);
    #[async_trait::async_trait]
    impl AsyncStreamProtocolListener for Flaky {
        type AddressType = PathBuf; type RemoteAddressType = tokio::net::unix::SocketAddr; type Stream = UnixStream; type ListenerOptions = ();
        async fn protocol_bind(a: PathBuf, _: ()) -> IPCResult<Self> { Ok(Flaky(UnixListener::bind(a)?, Default::default())) }
        async fn protocol_accept(&self) -> IPCResult<(UnixStream, tokio::net::unix::SocketAddr)> {
            let c = self.0.accept().await?;
            if !self.1.swap(true, std::sync::atomic::Ordering::SeqCst) { return Err(std::io::Error::from(std::io::ErrorKind::ConnectionAborted).into()); }
            Ok(c)
        }
    }
}
#[tokio::test]
async fn aborted_accept_keeps_server() {
    let p = sock("abrt"); let p2 = p.clone();
    tokio::spawn(async move { IPCBuilder::<flaky::Flaky>::new().address(p2).on("a", |_c, _e| Box::pin(async move { Ok(Response::empty()) })).build_server().await });
    tokio::time::sleep(Duration::from_millis(50)).await;
    let _a = IPCBuilder::<UnixListener>::new().address(p.clone()).build_client().await.unwrap();
    let b = IPCBuilder::<UnixListener>::new().address(p.clone()).build_client().await.unwrap();
    b.emit("a", Raw(vec![])).await_reply().with_timeout(Duration::from_secs(1)).await.unwrap();
}
#[test]
fn bincode_length() {
    // whatever id bincode has: every id with a string length that cannot be allocated
    for id in 0..8u8 {
        let mut b = vec![id];
        b.extend([0xFFu8; 16]);
        assert!(SerdePayload::<String>::from_payload(&b[..]).is_err());
    }
}

#[tokio::test]
async fn aborted_emit() {
    let p = sock("aemit");
    let l = raw_server(&p).await;
    let ctx = IPCBuilder::<UnixListener>::new().address(p).build_client().await.unwrap();
    let (mut c, _) = l.accept().await.unwrap();
    // the peer does not read yet, the event does not fit the buffers of the socket
    let r = tokio::time::timeout(Duration::from_millis(100), ctx.emit("big", Raw(vec![7u8; 4 << 20]))).await;
    assert!(r.is_err());
    let reader = tokio::spawn(async move {
        let a = Event::from_async_read(&mut c).await.unwrap();
        let b = if a.name() == "small" { a } else { Event::from_async_read(&mut c).await.unwrap() };
        b.name().to_string()
    });
    ctx.emit("small", Raw(vec![1])).await.unwrap();
    let n = tokio::time::timeout(Duration::from_secs(5), reader).await.unwrap().unwrap();
    assert_eq!(n, "small");
}

/// known finding: the key exchange is part of accepting, so a silent peer keeps others out
#[tokio::test]
async fn known_finding_silent_peer_blocks_server() {
    let p = sock("silent");
    let secret = StaticSecret::from([9u8; 32]);
    let key = PublicKey::from(&secret);
    let csecret = StaticSecret::from([8u8; 32]);
    let so = EncryptionOptions { inner_options: (), keys: Keys { secret, known_peers: vec![PublicKey::from(&csecret)], allow_unknown: false } };
    let co = EncryptionOptions { inner_options: (), keys: Keys { secret: csecret, known_peers: vec![key], allow_unknown: false } };
    let p2 = p.clone();
    tokio::spawn(async move { IPCBuilder::<EncryptedListener<UnixListener>>::new().address(p2).server_options(so).build_server().await });
    tokio::time::sleep(Duration::from_millis(100)).await;
    let _silent = UnixStream::connect(&p).await.unwrap();
    let r = tokio::time::timeout(Duration::from_millis(500), IPCBuilder::<EncryptedListener<UnixListener>>::new().address(p).client_options(co).build_client()).await;
    assert!(r.is_err(), "the finding is gone");
}
