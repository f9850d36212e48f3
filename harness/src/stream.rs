//! Replays behaviours of Stream.tla over a replication connection (bytes
//! delivered in given pieces) and of Reader.tla from a file.
use crate::decode::{event_bytes, observe, options, scratch};
use crate::net::{self, Coop};
use crate::pool::{bytes, guard, HANGS};
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_reader::BinlogReader;
use mysql_cdc::errors::Error;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use serde_json::{json, Value};
use std::fs::File;
use std::io::Write;
use std::net::Shutdown;
use std::sync::atomic::Ordering;
use std::time::Duration;

const MAX_BODY: usize = 0xFF_FFFF;

/// The bytes of an event: from the specification, or with a text of "fill" bytes; cut to "keep" bytes.
fn event(i: &Value) -> Vec<u8> {
    let mut v = if let Some(n) = i["fill"].as_u64() {
        let seed = i["seed"].as_u64().unwrap();
        let mut v = bytes(&i["h"]);
        v.extend(bytes(&i["b"]));
        v.reserve(n as usize + 4);
        v.extend((0..n).map(|k| 33 + ((k * 7 + (k >> 8) + seed) % 89) as u8));
        if i["c"] == 1 {
            let crc = net::crc32(&v);
            v.extend_from_slice(&crc.to_le_bytes());
        }
        v
    } else {
        event_bytes(i)
    };
    if let Some(n) = i["keep"].as_u64() {
        v.truncate(n as usize);
    }
    v
}

fn note(r: Result<Option<Result<(EventHeader, BinlogEvent), Error>>, String>) -> Value {
    if let Ok(Some(Ok((h, BinlogEvent::RowsQueryEvent(x))))) = &r {
        if x.query.len() > 2000 {
            return json!(["ok", crate::proj::header(h),
                          ["big", x.query.len(), net::crc32(x.query.as_bytes())]]);
        }
    }
    observe(r)
}

fn frames(conn: &mut net::Conn, p: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut at = 0;
    loop {
        let n = (p.len() - at).min(MAX_BODY);
        out.extend(conn.frame(&p[at..at + n]));
        at += n;
        if n < MAX_BODY {
            return out;
        }
    }
}

fn live(case: &Value) -> Value {
    let (l, port) = net::listen();
    let coop = Coop {
        maria: case["maria"] == true,
        checksum: case["nego"].as_str().unwrap().to_string(),
        end_file: "mysql-bin.000001".to_string(),
        end_pos: "4".to_string(),
    };
    let mut o = options(port);
    if let Some(n) = case["hb_ms"].as_u64() {
        o.heartbeat_interval = Duration::from_millis(n);
    }
    let mut client = BinlogClient::new(o);
    let h = net::coop_thread(l, coop);
    let r = guard(|| client.replicate());
    let (_l, setup) = h.join().unwrap();
    let mut events = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return json!([["open", format!("{:?}", e)]]),
        Err(p) => return json!([["panic", p]]),
    };
    let mut conn = match setup {
        Some(s) if s.dump.is_some() => s.conn,
        _ => return json!([["nodump"]]),
    };
    let mut buf = Vec::new();
    for i in case["pk"].as_array().unwrap() {
        let p = if i["raw"].is_array() {
            bytes(&i["raw"])
        } else {
            let mut p = vec![0u8];
            p.extend(event(i));
            p
        };
        buf.extend(frames(&mut conn, &p));
    }
    let cuts: Vec<usize> = case["cuts"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let close = case["close"].as_u64().map(|x| x as usize);
    let gap = Duration::from_micros(case["gap"].as_u64().unwrap_or(700));
    // pauses in which the client tires of waiting
    let stalls: Vec<usize> = case["stalls"].as_array().map_or(vec![], |x| x.iter().map(|x| x.as_u64().unwrap() as usize).collect());
    let n_stalls = stalls.len();
    let (tired, tires) = std::sync::mpsc::channel::<()>();
    let w = std::thread::spawn(move || {
        let mut at = 0;
        let end = close.unwrap_or(buf.len());
        let pause = |at: usize| {
            if stalls.contains(&at) {
                let _ = tires.recv_timeout(Duration::from_secs(14));
            }
        };
        pause(0);
        for c in cuts.into_iter().chain(std::iter::once(end)) {
            if c <= at || c > end {
                continue;
            }
            if at > 0 {
                std::thread::sleep(gap);
            }
            if conn.stream.write_all(&buf[at..c]).is_err() {
                break;
            }
            at = c;
            pause(at);
        }
        if close.is_some() {
            let _ = conn.stream.shutdown(Shutdown::Write);
        }
        conn
    });
    let (mut obs, mut n_late) = (Vec::new(), 0);
    for _ in 0..case["n"].as_u64().unwrap() {
        let o = note(guard(|| events.next()));
        let late = o[2] == "WouldBlock" || o[2] == "TimedOut";
        n_late += late as usize;
        let expected = late && n_late <= n_stalls;
        let stop = o[0] == "end" || o[0] == "panic" || late && !expected;
        if late && !expected {
            HANGS.fetch_add(1, Ordering::SeqCst);
        }
        if late {
            let _ = tired.send(());
        }
        obs.push(o);
        if stop {
            break;
        }
    }
    drop(events);
    let _ = w.join();
    Value::Array(obs)
}

fn file(case: &Value) -> Value {
    let path = scratch("rd");
    {
        let mut f = File::create(&path).unwrap();
        let mut v = bytes(&case["sig"]);
        for i in case["pk"].as_array().unwrap() {
            v.extend(event(i));
        }
        if let Some(n) = case["cut"].as_u64() {
            v.truncate(n as usize);
        }
        f.write_all(&v).unwrap();
    }
    let f = File::open(&path).unwrap();
    std::fs::remove_file(&path).unwrap();
    let mut obs = Vec::new();
    match guard(|| BinlogReader::new(f)) {
        Ok(Ok(r)) => {
            let mut it = r.read_events();
            for _ in 0..case["n"].as_u64().unwrap() {
                let o = note(guard(|| it.next()));
                let stop = o[0] == "end" || o[0] == "panic";
                obs.push(o);
                if stop {
                    break;
                }
            }
        }
        Ok(Err(e)) => obs.push(json!(["open", format!("{:?}", e)])),
        Err(p) => obs.push(json!(["panic", p])),
    }
    Value::Array(obs)
}

pub fn run(case: &Value) -> Value {
    if case["live"] == true {
        live(case)
    } else {
        file(case)
    }
}
