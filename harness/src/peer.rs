//! A scripted peer node on the loopback network: speaks the real wire protocol, records every frame it
//! is sent, answers identification, handshakes and pings, and whatever else the suite scripts.
use coerce::actor::system::ActorSystem;
use coerce::persistent::journal::provider::StorageProvider;
use coerce::persistent::Persistence;
use coerce::remote::cluster::discovery::{Discover, Seed};
use coerce::remote::heartbeat::HeartbeatConfig;
use coerce::remote::net::message::{ClientEvent, SessionEvent};
use coerce::remote::net::proto::network as proto;
use coerce::remote::net::StreamData;
use coerce::remote::system::builder::RemoteSystemConfigBuilder;
use coerce::remote::system::RemoteActorSystem;
use futures::{SinkExt, StreamExt};
use parking_lot::Mutex;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::net::TcpListener;
use tokio::sync::mpsc;
use tokio_util::codec::{FramedRead, FramedWrite, LengthDelimitedCodec};

pub type Script = Arc<dyn Fn(u64, &SessionEvent) -> Vec<ClientEvent> + Send + Sync>;
/// Frames in arrival order, over all peers sharing the log.
pub type Log = Arc<Mutex<Vec<(u64, SessionEvent)>>>;

#[derive(Clone)]
pub struct Peer {
    pub id: u64,
    pub addr: String,
    pub log: Log,
    conns: Arc<Mutex<Vec<mpsc::UnboundedSender<Option<Vec<u8>>>>>>,
}

impl Peer {
    pub async fn start(id: u64, log: Log, script: Script) -> Peer {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = l.local_addr().unwrap().to_string();
        let peer = Peer { id, addr: addr.clone(), log: log.clone(), conns: Default::default() };
        let p = peer.clone();
        tokio::spawn(async move {
            while let Ok((s, _)) = l.accept().await {
                let (r, w) = s.into_split();
                let mut read = FramedRead::new(r, LengthDelimitedCodec::new());
                let mut write = FramedWrite::new(w, LengthDelimitedCodec::new());
                let (tx, mut rx) = mpsc::unbounded_channel::<Option<Vec<u8>>>();
                p.conns.lock().push(tx.clone());
                tokio::spawn(async move {
                    while let Some(Some(b)) = rx.recv().await {
                        if write.send(b.into()).await.is_err() {
                            break;
                        }
                    }
                });
                let (p, script, addr) = (p.clone(), script.clone(), addr.clone());
                tokio::spawn(async move {
                    while let Some(Ok(b)) = read.next().await {
                        let Some(ev) = SessionEvent::read_from_bytes(b.to_vec()) else { continue };
                        let auto = match &ev {
                            SessionEvent::Identify(_) => Some(ClientEvent::Identity(proto::NodeIdentity {
                                node_id: p.id,
                                node_tag: format!("peer-{}", p.id),
                                addr: addr.clone(),
                                ..Default::default()
                            })),
                            SessionEvent::Handshake(h) => Some(ClientEvent::Handshake(proto::ClientHandshake {
                                node_id: p.id,
                                node_tag: format!("peer-{}", p.id),
                                trace_id: h.trace_id.clone(),
                                ..Default::default()
                            })),
                            SessionEvent::Ping(x) => {
                                Some(ClientEvent::Pong(proto::PongEvent { message_id: x.message_id.clone(), ..Default::default() }))
                            }
                            _ => None,
                        };
                        let mut out = script(p.id, &ev);
                        out.extend(auto);
                        if !matches!(ev, SessionEvent::Ping(_)) {
                            p.log.lock().push((p.id, ev));
                        }
                        for e in out {
                            let _ = tx.send(Some(e.write_to_bytes().unwrap()));
                        }
                    }
                });
            }
        });
        peer
    }
    /// Sends a frame on every open connection (a result is taken by the first that arrives).
    pub fn send(&self, e: &ClientEvent) {
        if let Some(c) = self.conns.lock().last() {
            let _ = c.send(Some(e.write_to_bytes().unwrap()));
        }
    }
}

pub fn result_of(message_id: &str, result: Vec<u8>) -> ClientEvent {
    ClientEvent::Result(proto::ClientResult { message_id: message_id.to_string(), result, ..Default::default() })
}

pub fn quiet_heartbeat() -> HeartbeatConfig {
    HeartbeatConfig {
        interval: Duration::from_secs(3600),
        ping_timeout: Duration::from_secs(3600),
        unhealthy_node_heartbeat_timeout: Duration::from_secs(36000),
        terminated_node_heartbeat_timeout: Duration::from_secs(36000),
        minimum_cluster_size: None,
    }
}

/// A node (id 1) of a cluster whose other members are scripted peers.
pub async fn node<F>(provider: impl StorageProvider, id: u64, f: F) -> RemoteActorSystem
where
    F: 'static + FnOnce(&mut RemoteSystemConfigBuilder) -> &mut RemoteSystemConfigBuilder,
{
    let sys = ActorSystem::new().to_persistent(Persistence::from(provider));
    RemoteActorSystem::builder()
        .with_actor_system(sys)
        .with_tag(format!("node-{id}"))
        .with_id(id)
        .configure(|c| {
            c.heartbeat(quiet_heartbeat());
            f(c)
        })
        .build()
        .await
}

pub async fn join(remote: &RemoteActorSystem, p: &Peer) {
    let (tx, rx) = tokio::sync::oneshot::channel();
    let _ = remote
        .node_discovery()
        .send(Discover { seed: Seed::Addr(p.addr.clone()), on_discovery_complete: Some(tx) })
        .await;
    let _ = rx.await;
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(5) {
        if remote.get_nodes().await.iter().any(|n| n.id == p.id) {
            return;
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
}

/// Polls until the condition holds (true) or the time is up (false).
pub async fn until<F: FnMut() -> bool>(ms: u64, mut f: F) -> bool {
    let t = Instant::now();
    loop {
        if f() {
            return true;
        }
        if t.elapsed() > Duration::from_millis(ms) {
            return false;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
}
