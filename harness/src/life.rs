//! Replays behaviours of Life.tla: several clients and streams at once, seen
//! from the servers they talk to.
use crate::decode::{event_bytes, observe};
use crate::net::{self, Conn, Recv};
use crate::pool::{guard, HANGS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_events::BinlogEvents;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::replica_options::ReplicaOptions;
use serde_json::{json, Value};
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, TcpListener};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

/// Two servers: the same port of two addresses.
fn servers() -> Vec<TcpListener> {
    loop {
        let a = TcpListener::bind("127.0.0.1:0").expect("bind");
        if let Ok(b) = TcpListener::bind(("127.0.0.2", a.local_addr().unwrap().port())) {
            return vec![a, b];
        }
    }
}

fn options(case: &Value, c: usize, port: u16) -> ReplicaOptions {
    let x = &case["clients"][c];
    ReplicaOptions {
        hostname: x["host"].as_str().unwrap().to_string(),
        port,
        username: x["user"].as_str().unwrap().to_string(),
        password: x["pw"].as_str().unwrap().to_string(),
        blocking: x["blocking"] == true,
        server_id: x["id"].as_u64().unwrap() as u32,
        heartbeat_interval: Duration::from_secs(1),
        binlog: match x["strat"].as_str().unwrap() {
            "start" => BinlogOptions::from_start(),
            "end" => BinlogOptions::from_end(),
            "pos" => BinlogOptions::from_position("mysql-bin.000007".to_string(), 4711),
            "mariadb" => BinlogOptions::from_mariadb_gtid(GtidList::parse("0-1-270").unwrap()),
            "mysql" => BinlogOptions::from_mysql_gtid(GtidSet::parse("d4c17f0c-4f11-11ea-93e3-325d3e1cd1c8:1-107").unwrap()),
            x => panic!("strat {}", x),
        },
        ..Default::default()
    }
}

/// Accepts one connection and answers; at step `fail` refuses or goes away.
fn serve(l: &TcpListener, maria: bool, fail: Option<(usize, bool)>) -> Option<(Conn, bool)> {
    let mut conn = net::accept(l)?;
    for step in 0.. {
        let p = if step == 0 {
            Vec::new()
        } else {
            match conn.recv() {
                Recv::Packet(p, _) => p,
                _ => return Some((conn, false)),
            }
        };
        match fail {
            Some((k, true)) if k == step => {
                let _ = conn.stream.shutdown(Shutdown::Write);
                return Some((conn, true));
            }
            Some((k, false)) if k == step => {
                conn.send(b"\xff\x15\x04#28000Access denied");
                return Some((conn, true));
            }
            _ => {}
        }
        let reply = match step {
            0 => {
                let v = if maria { "5.5.5-10.6.12-MariaDB-log" } else { "8.0.32" };
                vec![net::handshake(v, net::SCRAMBLE, "mysql_native_password")]
            }
            1 => vec![net::ok_packet()],
            _ if p[0] == 18 || p[0] == 30 => return Some((conn, true)),
            _ => {
                let n = net::norm(&String::from_utf8_lossy(&p[1..]));
                if p[0] != 3 {
                    vec![net::ok_packet()]
                } else if n.starts_with("showmasterstatus") || n.starts_with("showbinarylogstatus") {
                    net::status_set("mysql-bin.000009", "1234")
                } else if n.starts_with("select") && n.contains("binlog_checksum") {
                    net::result_set(&["@master_binlog_checksum"], &[vec!["NONE"]])
                } else {
                    vec![net::ok_packet()]
                }
            }
        };
        let mut buf = Vec::new();
        for p in reply {
            buf.extend(conn.frame(&p));
        }
        let _ = conn.stream.write_all(&buf);
    }
    None
}

/// What the server sees of a connection, waiting a little for an expected close.
fn state(conn: &mut Conn, expect_closed: bool) -> &'static str {
    let t0 = Instant::now();
    let mut data = false;
    let _ = conn.stream.set_nonblocking(true);
    let r = loop {
        let mut b = [0u8; 256];
        match conn.stream.read(&mut b) {
            Ok(0) => break "closed",
            Ok(_) => data = true,
            Err(e) if e.kind() == ErrorKind::WouldBlock => {
                if !expect_closed || t0.elapsed() > Duration::from_secs(4) {
                    break if data { "data" } else { "open" };
                }
                std::thread::sleep(Duration::from_micros(200));
            }
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(_) => break "closed",
        }
    };
    let _ = conn.stream.set_nonblocking(false);
    r
}

pub fn run(case: &Value) -> Value {
    let ls = servers();
    let port = ls[0].local_addr().unwrap().port();
    let n = case["clients"].as_array().unwrap().len();
    let home: Vec<usize> = (0..n).map(|c| case["clients"][c]["home"].as_u64().unwrap() as usize).collect();
    let mut clients: Vec<Option<BinlogClient>> = (0..n).map(|c| Some(BinlogClient::new(options(case, c, port)))).collect();
    let mut conns: Vec<Option<Conn>> = Vec::new();
    let mut streams: Vec<Option<BinlogEvents>> = Vec::new();
    let mut obs = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let c = op["c"].as_u64().unwrap() as usize;
        let s = op["s"].as_u64().unwrap() as usize;
        let mut stop = false;
        let r = match op["op"].as_str().unwrap() {
            "open" => {
                let fail = op["at"].as_u64().map(|k| (k as usize, op["how"] == "hang"));
                let maria = case["clients"][c]["maria"] == true;
                let mut client = clients[c].take().unwrap();
                let l = &ls[home[c]];
                let (r, served) = std::thread::scope(|sc| {
                    let h = sc.spawn(|| serve(l, maria, fail));
                    (guard(|| client.replicate()), h.join().unwrap())
                });
                let o = &client.options;
                let w = options(case, c, port);
                let kept = o.hostname == w.hostname
                    && o.port == w.port
                    && o.username == w.username
                    && o.password == w.password
                    && o.database == w.database
                    && o.server_id == w.server_id
                    && o.blocking == w.blocking
                    && o.heartbeat_interval == w.heartbeat_interval;
                clients[c] = Some(client);
                let note = match &served {
                    None => {
                        HANGS.fetch_add(1, Ordering::SeqCst);
                        "no connection"
                    }
                    Some((_, false)) => "left",
                    _ if !kept => "options changed",
                    _ => "",
                };
                conns.push(served.map(|x| x.0));
                match r {
                    Ok(Ok(x)) => {
                        streams.push(Some(x));
                        json!(["ok", note])
                    }
                    Ok(Err(e)) => {
                        streams.push(None);
                        stop = fail.is_none();
                        json!(["failed", note, format!("{:?}", e)])
                    }
                    Err(p) => {
                        streams.push(None);
                        stop = true;
                        json!(["panic", note, p])
                    }
                }
            }
            "quit" => {
                drop(clients[c].take());
                json!([])
            }
            "drop" => {
                drop(streams[s].take());
                json!([])
            }
            "push" => {
                let mut p = vec![0u8];
                p.extend(event_bytes(&op["ev"]));
                let conn = conns[s].as_mut().unwrap();
                if conn.send(&p) {
                    json!([])
                } else {
                    json!(["cannot send"])
                }
            }
            "end" => {
                let conn = conns[s].as_mut().unwrap();
                if op["how"] == "eof" {
                    conn.send(&net::eof_packet());
                } else {
                    let _ = conn.stream.shutdown(Shutdown::Write);
                }
                json!([])
            }
            "take" => match streams[s].as_mut() {
                None => json!(["nothing held"]),
                Some(x) => {
                    let r = observe(guard(|| x.next()));
                    if r[2] == "WouldBlock" || r[2] == "TimedOut" {
                        HANGS.fetch_add(1, Ordering::SeqCst);
                    }
                    r
                }
            },
            x => panic!("op {}", x),
        };
        let want = op["socks"].as_array().unwrap();
        let socks: Vec<&str> = conns
            .iter_mut()
            .enumerate()
            .map(|(i, c)| match c {
                Some(c) => state(c, want.get(i).map_or(false, |w| w == "closed")),
                None => "none",
            })
            .collect();
        let mut extra = 0;
        for l in &ls {
            let _ = l.set_nonblocking(true);
            while l.accept().is_ok() {
                extra += 1;
            }
        }
        stop |= conns.iter().any(|x| x.is_none());
        obs.push(json!({"r": r, "socks": socks, "extra": extra}));
        if stop {
            break;
        }
    }
    Value::Array(obs)
}
