//! Loopback helpers: servers on free ports, clients, raw peers speaking the wire format through the oracle.
use crate::oracle as o;
use std::future::Future;
use std::net::SocketAddr;
use std::time::Duration;
use tchannel_rs::{Config, ConfigBuilder, TChannel};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};

pub const WAIT: u64 = 20;
pub async fn within<T>(f: impl Future<Output = T>) -> Result<T, String> {
    tokio::time::timeout(Duration::from_secs(WAIT), f).await.map_err(|_| "no result within the time limit".to_string())
}
/// As `within`, for calls made concurrently through the pools of `ch`. bb8 0.8.0 can leave a caller waiting for a
/// connection which was put back between its look for an idle one and its joining of the queue, until the next one is
/// put back. A call which fails before it sends anything (its service name is too long) takes and puts back one.
pub async fn within_pool<T>(ch: &TChannel, addr: SocketAddr, f: impl Future<Output = T>) -> Result<T, String> {
    use tchannel_rs::messages::{MessageChannel, RawMessage};
    tokio::pin!(f);
    for _ in 0..WAIT / 2 {
        if let Ok(r) = tokio::time::timeout(Duration::from_secs(2), &mut f).await { return Ok(r); }
        let sub = ch.subchannel("x".repeat(300)).await.map_err(|e| e.to_string())?;
        let _ = tokio::time::timeout(Duration::from_millis(500), sub.send(RawMessage::new("e".into(), "h".into(), "b".into()), addr)).await;
    }
    Err("no result within the time limit".to_string())
}
/// Runs on a fresh runtime, which is dropped without waiting.
pub fn run<T>(f: impl Future<Output = Result<T, String>>) -> Result<T, String> {
    run_for(3 * WAIT, f)
}
pub fn run_for<T>(secs: u64, f: impl Future<Output = Result<T, String>>) -> Result<T, String> {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(secs), f).await.unwrap_or_else(|_| Err("no result within the time limit".into())) });
    rt.shutdown_background();
    r
}
/// A free port outside of the range of ports the system gives to outgoing connections: connecting to such a port
/// while nobody listens there could connect a socket to itself.
pub fn free_addr() -> SocketAddr {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let text = std::fs::read_to_string("/proc/sys/net/ipv4/ip_local_port_range").unwrap_or_default();
    let low: u32 = text.split_whitespace().next().and_then(|s| s.parse().ok()).unwrap_or(0);
    if low > 12000 {
        for _ in 0..200 {
            let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed).wrapping_add(std::process::id().wrapping_mul(97));
            let addr = SocketAddr::from(([127, 0, 0, 1], (10000 + n % (low - 10000)) as u16));
            if std::net::TcpListener::bind(addr).is_ok() { return addr; }
        }
    }
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}
pub struct Conf { pub addr: SocketAddr, pub buffer: usize, pub tasks: usize, pub conns: u32, pub test: bool }
pub fn config(c: &Conf) -> Config {
    ConfigBuilder::default()
        .max_connections(c.conns)
        .lifetime(Some(Duration::from_secs(60)))
        .test_connection(c.test)
        .frame_buffer_size(c.buffer)
        .server_address(c.addr)
        .server_tasks(c.tasks)
        .build()
        .unwrap()
}
pub fn conf() -> Conf {
    Conf { addr: free_addr(), buffer: 100, tasks: 4, conns: 1, test: false }
}
pub fn client() -> Result<TChannel, String> {
    TChannel::new(config(&conf())).map_err(|e| e.to_string())
}
pub struct Srv { pub ch: TChannel, pub addr: SocketAddr }
impl Srv {
    pub async fn start(f: impl FnOnce(&mut Conf)) -> Result<Srv, String> {
        let mut c = conf();
        f(&mut c);
        let ch = TChannel::new(config(&c)).map_err(|e| e.to_string())?;
        ch.start_server().map_err(|e| e.to_string())?;
        for _ in 0..400 {
            if TcpStream::connect(c.addr).await.is_ok() {
                return Ok(Srv { ch, addr: c.addr });
            }
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        Err("server did not start".into())
    }
}
/// A peer that writes and reads raw frames.
pub struct Raw { pub s: TcpStream, buf: Vec<u8> }
pub type RF = (u32, u8, Vec<u8>);
impl Raw {
    pub fn new(s: TcpStream) -> Raw { let _ = s.set_nodelay(true); Raw { s, buf: vec![] } }
    pub async fn connect(a: SocketAddr) -> Result<Raw, String> {
        Ok(Raw::new(TcpStream::connect(a).await.map_err(|e| e.to_string())?))
    }
    pub async fn put(&mut self, id: u32, t: u8, payload: &[u8]) -> Result<(), String> {
        self.s.write_all(&o::frame(id, t, payload)).await.map_err(|e| format!("write: {}", e))
    }
    /// Next frame, None at the end of the connection, Err on time out.
    pub async fn get(&mut self) -> Result<Option<RF>, String> {
        self.get_in(WAIT * 1000).await
    }
    pub async fn get_in(&mut self, ms: u64) -> Result<Option<RF>, String> {
        loop {
            if self.buf.len() >= 2 {
                let n = u16::from_be_bytes([self.buf[0], self.buf[1]]) as usize;
                if n < 16 { return Err("peer sent a bad size".into()); }
                if self.buf.len() >= n {
                    let f: Vec<u8> = self.buf.drain(..n).collect();
                    return Ok(Some((u32::from_be_bytes([f[4], f[5], f[6], f[7]]), f[2], f[16..].to_vec())));
                }
            }
            let mut tmp = [0u8; 65536];
            match tokio::time::timeout(Duration::from_millis(ms), self.s.read(&mut tmp)).await {
                Err(_) => return Err("no frame within the time limit".into()),
                Ok(Ok(0)) | Ok(Err(_)) => return Ok(None),
                Ok(Ok(n)) => self.buf.extend_from_slice(&tmp[..n]),
            }
        }
    }
    pub async fn handshake(&mut self, id: u32) -> Result<(), String> {
        self.put(id, 1, &[0, 2, 0, 0]).await?;
        match self.get().await? {
            Some((i, 2, _)) if i == id => Ok(()),
            other => Err(format!("handshake answered by {:?}", other)),
        }
    }
    /// Server side of a handshake.
    pub async fn accept(l: &TcpListener) -> Result<Raw, String> {
        let (s, _) = l.accept().await.map_err(|e| e.to_string())?;
        let mut r = Raw::new(s);
        match r.get().await? {
            Some((id, 1, p)) => {
                if p.len() < 2 || p[0] != 0 || p[1] != 2 { return Err(format!("client init payload {:?}", p)); }
                r.put(id, 2, &[0, 2, 0, 0]).await?;
                Ok(r)
            }
            other => Err(format!("client began with {:?}", other)),
        }
    }
}
pub fn hs(scheme: &str) -> Vec<(String, String)> {
    vec![("as".into(), scheme.into()), ("cn".into(), "raw client".into())]
}
pub fn req(flags: u8, service: &str, scheme: &str, chunks: &[Vec<u8>]) -> Vec<u8> {
    o::call_req(flags, 1000, (1, 2, 3, 0), service, &hs(scheme), &o::args(0, None, chunks))
}
pub fn cont(flags: u8, chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut p = vec![flags];
    p.extend(o::args(0, None, chunks));
    p
}
pub fn res(flags: u8, code: u8, scheme: &str, chunks: &[Vec<u8>]) -> Vec<u8> {
    o::call_res(flags, code, (1, 2, 3, 0), &hs(scheme), &o::args(0, None, chunks))
}
pub fn error_payload(code: u8, msg: &str) -> Vec<u8> {
    let mut p = vec![code];
    p.extend(o::tracing((0, 0, 0, 0)));
    p.extend(o::str2(msg));
    p
}
