//! GTID sets and lists: parses texts and adds GTIDs, reporting what the
//! structure holds, how it prints and whether that parses back to the same.
use crate::pool::guard;
use mysql_cdc::providers::mariadb::gtid::gtid::Gtid as MariaGtid;
use mysql_cdc::providers::mariadb::gtid::gtid_list::GtidList;
use mysql_cdc::providers::mysql::gtid::gtid::Gtid as MySqlGtid;
use mysql_cdc::providers::mysql::gtid::gtid_set::GtidSet;
use mysql_cdc::providers::mysql::gtid::uuid::Uuid;
use serde_json::{json, Value};

fn dump_set(x: &GtidSet) -> Value {
    let mut v: Vec<(String, Value)> = x
        .uuid_sets
        .iter()
        .map(|(k, u)| {
            let iv: Vec<Value> = u
                .intervals
                .iter()
                .map(|i| json!([i.start.to_string(), i.end.to_string()]))
                .collect();
            (
                k.clone(),
                json!([k, hex::encode(u.source_id.data), u.source_id.to_string(), iv]),
            )
        })
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Value::Array(v.into_iter().map(|x| x.1).collect())
}

fn dump_list(x: &GtidList) -> Value {
    Value::Array(
        x.gtids
            .iter()
            .map(|g| json!([g.domain_id, g.server_id, g.sequence.to_string()]))
            .collect(),
    )
}

fn seen_set(r: Value, x: &GtidSet) -> Value {
    let text = x.to_string();
    let again = match GtidSet::parse(&text) {
        Ok(y) => json!([dump_set(&y), y.to_string()]),
        Err(e) => json!(["err", format!("{:?}", e)]),
    };
    json!(["ok", r, dump_set(x), text, again])
}

fn seen_list(r: Value, x: &GtidList) -> Value {
    let text = x.to_string();
    let again = match GtidList::parse(&text) {
        Ok(y) => json!([dump_list(&y), y.to_string()]),
        Err(e) => json!(["err", format!("{:?}", e)]),
    };
    json!(["ok", r, dump_list(x), text, again])
}

fn int<T: std::str::FromStr>(v: &Value) -> T {
    v.as_str().unwrap().parse().ok().expect("number")
}

pub fn run(case: &Value) -> Value {
    let maria = case["maria"] == true;
    let mut set = GtidSet::new();
    let mut list = GtidList::new();
    let mut out = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let r = guard(|| {
            if let Some(t) = op["parse"].as_str() {
                if maria {
                    match GtidList::parse(t) {
                        Ok(x) => {
                            let r = seen_list(Value::Null, &x);
                            list = x;
                            r
                        }
                        Err(e) => json!(["err", format!("{:?}", e)]),
                    }
                } else {
                    match GtidSet::parse(t) {
                        Ok(x) => {
                            let r = seen_set(Value::Null, &x);
                            set = x;
                            r
                        }
                        Err(e) => json!(["err", format!("{:?}", e)]),
                    }
                }
            } else if maria {
                let g = &op["add"];
                let g = MariaGtid::new(int(&g[0]), int(&g[1]), int(&g[2]));
                let p = g.to_string();
                let r = list.add_gtid(g);
                seen_list(json!([r, p]), &list)
            } else {
                let g = &op["add"];
                let u = g[0].as_str().unwrap().to_string();
                let u = if op["bin"] == true {
                    Uuid::new(hex::decode(u.replace("-", "")).unwrap().try_into().unwrap())
                } else {
                    match Uuid::parse(u) {
                        Ok(u) => u,
                        Err(e) => return json!(["err", format!("{:?}", e)]),
                    }
                };
                let g = MySqlGtid::new(u, int(&g[1]));
                let p = g.to_string();
                match set.add_gtid(g) {
                    Ok(r) => seen_set(json!([r, p]), &set),
                    Err(e) => json!(["err", format!("{:?}", e)]),
                }
            }
        });
        let stop = r.is_err();
        out.push(match r {
            Ok(v) => v,
            Err(p) => json!(["panic", p]),
        });
        if stop {
            break;
        }
    }
    Value::Array(out)
}
