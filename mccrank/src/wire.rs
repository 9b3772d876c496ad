//! Ways to reach the stand-in node: in process (RpcSender) and over loopback HTTP.
use crate::node::*;
use serde_json::{json, Value};
use solana_client::{
    client_error::{ClientError, ClientErrorKind},
    rpc_client::{RpcClient, RpcClientConfig},
    rpc_request::{RpcError, RpcRequest, RpcResponseErrorData},
    rpc_sender::{RpcSender, RpcTransportStats},
};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

pub struct Direct(pub Arc<Mutex<Node>>);
#[async_trait::async_trait]
impl RpcSender for Direct {
    async fn send(&self, request: RpcRequest, params: Value) -> Result<Value, ClientError> {
        let m = request.to_string();
        let a = self.0.lock().unwrap().rpc(&m, &params);
        match a {
            Answer::Ok(v) => Ok(v),
            Answer::Err(code, message) => Err(ClientError::new_with_request(ClientErrorKind::RpcError(RpcError::RpcResponseError { code, message, data: RpcResponseErrorData::Empty }), request)),
            Answer::None => Err(ClientError::new_with_request(ClientErrorKind::Io(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "lost")), request)),
        }
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
}
pub fn client(n: &Arc<Mutex<Node>>) -> RpcClient {
    let c = RpcClientConfig { commitment_config: solana_sdk::commitment_config::CommitmentConfig::confirmed(), confirm_transaction_initial_timeout: None };
    RpcClient::new_sender(Direct(n.clone()), c)
}

/// A loopback server; the node behind it can be exchanged.
pub struct Http {
    pub url: String,
    pub node: Arc<Mutex<Node>>,
}
impl Http {
    pub fn start(node: Node) -> Http {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let url = format!("http://{}", l.local_addr().unwrap());
        let node = Arc::new(Mutex::new(node));
        let n = node.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                if let Ok(s) = s {
                    let n = n.clone();
                    std::thread::spawn(move || {
                        let _ = serve(s, n);
                    });
                }
            }
        });
        Http { url, node }
    }
}
fn serve(s: TcpStream, node: Arc<Mutex<Node>>) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut w = s.try_clone()?;
    let mut r = BufReader::new(s);
    loop {
        let mut len = 0usize;
        let mut first = true;
        loop {
            let mut line = String::new();
            if r.read_line(&mut line)? == 0 {
                return Ok(());
            }
            let t = line.trim();
            if t.is_empty() {
                if first {
                    continue;
                }
                break;
            }
            first = false;
            let l = t.to_ascii_lowercase();
            if l.starts_with("content-length:") {
                len = l[15..].trim().parse().unwrap_or(0);
            }
        }
        let mut body = vec![0u8; len];
        r.read_exact(&mut body)?;
        let v: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        let a = node.lock().unwrap().rpc(v["method"].as_str().unwrap_or(""), &v["params"]);
        let out = match a {
            Answer::None => {
                w.write_all(b"HTTP/1.1 500 Internal Server Error\r\nContent-Length: 0\r\n\r\n")?;
                continue;
            }
            Answer::Ok(x) => json!({"jsonrpc": "2.0", "id": v["id"], "result": x}),
            Answer::Err(c, m) => json!({"jsonrpc": "2.0", "id": v["id"], "error": {"code": c, "message": m}}),
        }
        .to_string();
        let mut buf = format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", out.len()).into_bytes();
        buf.extend_from_slice(out.as_bytes());
        w.write_all(&buf)?;
    }
}
