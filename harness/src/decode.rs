//! Replays behaviours of Decode.tla, live (through a replication connection)
//! or from binlog files.
use crate::net::{self, Coop};
use crate::pool::{bytes, guard, HANGS};
use crate::proj;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::replica_options::ReplicaOptions;
use serde_json::{json, Value};
use std::fs::File;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

static SERIAL: AtomicUsize = AtomicUsize::new(0);

pub fn scratch(tag: &str) -> std::path::PathBuf {
    let dir = std::env::var("CDCHECK_TMP").unwrap_or("/tmp".to_string());
    let n = SERIAL.fetch_add(1, Ordering::SeqCst);
    std::path::PathBuf::from(dir).join(format!("cdcheck-{}-{}-{}", std::process::id(), tag, n))
}

/// The bytes of an event as logged: header, body, checksum if there is one.
pub fn event_bytes(item: &Value) -> Vec<u8> {
    let mut v = bytes(&item["h"]);
    v.extend(bytes(&item["b"]));
    if item["c"].as_u64() == Some(1) {
        let crc = net::crc32(&v);
        v.extend_from_slice(&crc.to_le_bytes());
    }
    v
}

pub fn observe(r: Result<Option<Result<(EventHeader, BinlogEvent), Error>>, String>) -> Value {
    match r {
        Err(p) => json!(["panic", p]),
        Ok(None) => json!(["end"]),
        Ok(Some(Ok((h, e)))) => json!(["ok", proj::header(&h), proj::event(&e)]),
        Ok(Some(Err(Error::IoError(e)))) => json!(["err", format!("{:?}", e), format!("{:?}", e.kind())]),
        Ok(Some(Err(e))) => json!(["err", format!("{:?}", e)]),
    }
}

pub fn options(port: u16) -> ReplicaOptions {
    ReplicaOptions {
        hostname: "127.0.0.1".to_string(),
        port,
        username: "root".to_string(),
        password: "Qwertyu1".to_string(),
        blocking: false,
        heartbeat_interval: Duration::from_secs(1),
        binlog: BinlogOptions::from_start(),
        ..Default::default()
    }
}

fn run_file(items: &[Value]) -> Value {
    let path = scratch("dec");
    {
        let mut f = File::create(&path).unwrap();
        let mut v = vec![0xfe, 0x62, 0x69, 0x6e];
        for i in items {
            v.extend(event_bytes(i));
        }
        f.write_all(&v).unwrap();
    }
    let file = File::open(&path).unwrap();
    std::fs::remove_file(&path).unwrap();
    let mut obs = Vec::new();
    match guard(|| BinlogReader::new(file)) {
        Ok(Ok(r)) => {
            let mut it = r.read_events();
            for _ in 0..items.len() + 3 {
                let o = observe(guard(|| it.next()));
                let stop = o[0] == "end" || o[0] == "panic";
                obs.push(o);
                if stop {
                    break;
                }
            }
        }
        Ok(Err(e)) => obs.push(json!(["open", format!("{:?}", e)])),
        Err(p) => obs.push(json!(["panic", p])),
    }
    Value::Array(obs)
}

pub fn run(case: &Value) -> Value {
    let segs = case["segs"].as_array().unwrap();
    if case["live"] != true {
        return Value::Array(segs.iter().map(|s| run_file(s.as_array().unwrap())).collect());
    }
    let (mut l, port) = net::listen();
    let coop = Coop {
        maria: case["maria"] == true,
        checksum: case["nego"].as_str().unwrap().to_string(),
        end_file: "mysql-bin.000001".to_string(),
        end_pos: "4".to_string(),
    };
    let mut client = BinlogClient::new(options(port));
    let mut out = Vec::new();
    for seg in segs {
        let items = seg.as_array().unwrap();
        let h = net::coop_thread(l, coop.clone());
        let r = guard(|| client.replicate());
        let (l2, setup) = h.join().unwrap();
        l = l2;
        let mut obs = Vec::new();
        match r {
            Err(p) => obs.push(json!(["panic", p])),
            Ok(Err(e)) => {
                if setup.map(|s| s.note) == Some("timeout") {
                    HANGS.fetch_add(1, Ordering::SeqCst);
                }
                obs.push(json!(["open", format!("{:?}", e)]))
            }
            Ok(Ok(mut events)) => {
                let mut conn = match setup {
                    Some(s) if s.dump.is_some() => s.conn,
                    _ => {
                        obs.push(json!(["nodump"]));
                        out.push(Value::Array(obs));
                        continue;
                    }
                };
                let mut buf = Vec::new();
                for i in items {
                    let mut p = vec![0u8];
                    p.extend(event_bytes(i));
                    buf.extend(conn.frame(&p));
                }
                buf.extend(conn.frame(&net::eof_packet()));
                let w = std::thread::spawn(move || {
                    let _ = conn.stream.write_all(&buf);
                    conn
                });
                for _ in 0..items.len() + 3 {
                    let o = observe(guard(|| events.next()));
                    let stop = o[0] == "end" || o[0] == "panic";
                    obs.push(o);
                    if stop {
                        break;
                    }
                }
                drop(events);
                let _ = w.join();
            }
        }
        out.push(Value::Array(obs));
    }
    Value::Array(out)
}
