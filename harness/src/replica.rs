//! Replays behaviours of Replica.tla: connections, events, commits, saves,
//! crashes, against a server that follows the behaviour step by step.
use crate::decode::{event_bytes, observe, options};
use crate::net::{self, Conn, Coop};
use crate::pool::{bytes, guard, HANGS};
use crate::proj;
use mysql_cdc::binlog_client::BinlogClient;
use mysql_cdc::binlog_events::BinlogEvents;
use mysql_cdc::binlog_options::BinlogOptions;
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::sync::atomic::Ordering;

/// What a program stores of its position.
#[derive(Clone)]
struct Stored {
    file: String,
    pos: u32,
    gtid: String,
}

fn store(c: &BinlogClient) -> Stored {
    let b = &c.options.binlog;
    Stored {
        file: b.filename.clone(),
        pos: b.position,
        gtid: match (&b.gtid_set, &b.gtid_list) {
            (Some(x), _) => x.to_string(),
            (_, Some(x)) => x.to_string(),
            _ => String::new(),
        },
    }
}

fn binlog(strat: &str, maria: bool, s: &Stored) -> Result<BinlogOptions, String> {
    Ok(if strat == "gtid" {
        if maria {
            BinlogOptions::from_mariadb_gtid(GtidList::parse(&s.gtid).map_err(|e| format!("{:?}", e))?)
        } else {
            BinlogOptions::from_mysql_gtid(GtidSet::parse(&s.gtid).map_err(|e| format!("{:?}", e))?)
        }
    } else if !s.file.is_empty() {
        BinlogOptions::from_position(s.file.clone(), s.pos)
    } else if strat == "end" {
        BinlogOptions::from_end()
    } else {
        BinlogOptions::from_start()
    })
}

fn rec(c: &BinlogClient) -> Value {
    let s = store(c);
    json!([proj::b(s.file.as_bytes()), s.pos, s.gtid])
}

pub fn run(case: &Value) -> Value {
    let maria = case["maria"] == true;
    let strat = case["strat"].as_str().unwrap();
    let crc = case["crc"].as_u64() == Some(1);
    let full = case["full"] == true;
    let steps = case["steps"].as_array().unwrap();
    let (l, port) = net::listen();
    let mut l = Some(l);
    let mut saved = Stored {
        file: String::from_utf8(bytes(&case["init"]["file"])).unwrap(),
        pos: case["init"]["pos"].as_u64().unwrap() as u32,
        gtid: case["init"]["gtid"].as_str().unwrap().to_string(),
    };
    let make = |s: &Stored| -> Result<BinlogClient, String> {
        let mut o = options(port);
        o.blocking = true;
        o.binlog = match guard(|| binlog(strat, maria, s)) {
            Ok(x) => x?,
            Err(p) => return Err(format!("panic {}", p)),
        };
        Ok(BinlogClient::new(o))
    };
    let mut out = Vec::new();
    let mut client = match make(&saved) {
        Ok(c) => c,
        Err(e) => return json!([["restart", e]]),
    };
    let mut events: Option<BinlogEvents> = None;
    let mut conn: Option<Conn> = None;
    let mut queue: VecDeque<(EventHeader, BinlogEvent)> = VecDeque::new();
    for st in steps {
        match st["a"].as_str().unwrap() {
            "init" => out.push(json!(["rec", rec(&client)])),
            "connect" => {
                events = None;
                conn = None;
                queue.clear();
                let coop = Coop {
                    maria,
                    checksum: (if crc { "CRC32" } else { "NONE" }).to_string(),
                    end_file: String::from_utf8(bytes(&st["end"][0])).unwrap(),
                    end_pos: {
                        let p = bytes(&st["end"][1]);
                        u32::from_le_bytes([p[0], p[1], p[2], p[3]]).to_string()
                    },
                };
                let h = net::coop_thread(l.take().unwrap(), coop);
                let r = guard(|| client.replicate());
                let (l2, setup) = h.join().unwrap();
                l = Some(l2);
                match r {
                    Err(p) => {
                        out.push(json!(["panic", p]));
                        break;
                    }
                    Ok(Err(e)) => {
                        if setup.map(|s| s.note) == Some("timeout") {
                            HANGS.fetch_add(1, Ordering::SeqCst);
                        }
                        out.push(json!(["err", format!("{:?}", e)]));
                        break;
                    }
                    Ok(Ok(ev)) => {
                        let s = match setup {
                            Some(s) if s.dump.is_some() => s,
                            _ => {
                                out.push(json!(["nodump"]));
                                break;
                            }
                        };
                        out.push(json!(["dump", proj::b(s.dump.as_ref().unwrap()), s.queries, rec(&client)]));
                        events = Some(ev);
                        conn = Some(s.conn);
                    }
                }
            }
            "event" => {
                let mut v = st["e"].clone();
                let mut b = bytes(&v["b"]);
                b.extend_from_slice(v["sql"].as_str().unwrap().as_bytes());
                v["b"] = proj::b(&b);
                let mut p = vec![0u8];
                p.extend(event_bytes(&v));
                conn.as_mut().unwrap().send(&p);
                let ev = events.as_mut().unwrap();
                let r = guard(|| ev.next());
                match r {
                    Ok(Some(Ok((h, e)))) => {
                        let n = rec(&client);
                        let v = proj::event(&e);
                        out.push(json!(["event", proj::header(&h), if full { v } else { v[0].clone() }, n]));
                        queue.push_back((h, e));
                    }
                    x => {
                        out.push(observe(x));
                        break;
                    }
                }
            }
            "commit" => {
                let (h, e) = queue.pop_front().unwrap();
                match guard(|| client.commit(&h, &e)) {
                    Ok(()) => out.push(json!(["rec", rec(&client)])),
                    Err(p) => {
                        out.push(json!(["panic", p]));
                        break;
                    }
                }
            }
            "save" => {
                saved = store(&client);
                out.push(json!(["ok"]));
            }
            "drop" => {
                // the log's end, or the connection is lost
                if let Some(mut c) = conn.take() {
                    if st["end"] == true {
                        c.send(&net::eof_packet());
                        let ev = events.as_mut().unwrap();
                        out.push(json!(["dropped", observe(guard(|| ev.next()))[0]]));
                    } else {
                        drop(c);
                        let ev = events.as_mut().unwrap();
                        out.push(json!(["dropped", observe(guard(|| ev.next()))[0]]));
                    }
                }
                events = None;
            }
            "crash" => {
                events = None;
                conn = None;
                queue.clear();
                client = match make(&saved) {
                    Ok(c) => c,
                    Err(e) => {
                        out.push(json!(["restart", e]));
                        break;
                    }
                };
                out.push(json!(["rec", rec(&client)]));
            }
            _ => out.push(json!(["ok"])),
        }
    }
    Value::Array(out)
}
