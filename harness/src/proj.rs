//! Projection of decoded events to the observations the specification talks
//! about (see Wire.tla): wide numbers as little endian bytes, text as bytes.
use mysql_cdc::events::binlog_event::BinlogEvent;
use mysql_cdc::events::event_header::EventHeader;
use mysql_cdc::events::row_events::mysql_value::MySqlValue;
use mysql_cdc::events::row_events::row_data::RowData;
use mysql_cdc::metadata::default_charset::DefaultCharset;
use mysql_cdc::metadata::table_metadata::TableMetadata;
use serde_json::{json, Value};

/// Bytes as numbers; n > 1000 times the same byte b as 256 * n + b (at most
/// 4000000 of them in one number).
pub fn b(x: &[u8]) -> Value {
    let mut out = Vec::with_capacity(x.len().min(4096));
    let mut i = 0;
    while i < x.len() {
        let n = x[i..].iter().take_while(|v| **v == x[i]).count();
        if n <= 1000 {
            out.resize(out.len() + n, Value::from(x[i]));
        } else {
            let mut left = n;
            while left > 0 {
                let k = left.min(4000000);
                out.push(Value::from(256 * k as u64 + x[i] as u64));
                left -= k;
            }
        }
        i += n;
    }
    Value::Array(out)
}
fn s(x: &str) -> Value {
    b(x.as_bytes())
}
fn bits(x: &[bool]) -> Value {
    Value::Array(x.iter().map(|v| Value::from(*v as u8)).collect())
}
fn id6(x: u64) -> Value {
    let le = x.to_le_bytes();
    if x >> 48 == 0 {
        b(&le[..6])
    } else {
        b(&le)
    }
}

pub fn header(h: &EventHeader) -> Value {
    let mut v = Vec::new();
    v.extend_from_slice(&h.timestamp.to_le_bytes());
    v.push(h.event_type);
    v.extend_from_slice(&h.server_id.to_le_bytes());
    v.extend_from_slice(&h.event_length.to_le_bytes());
    v.extend_from_slice(&h.next_event_position.to_le_bytes());
    v.extend_from_slice(&h.event_flags.to_le_bytes());
    b(&v)
}

fn value(v: &MySqlValue) -> Value {
    match v {
        MySqlValue::TinyInt(x) => json!(["tiny", b(&x.to_le_bytes())]),
        MySqlValue::SmallInt(x) => json!(["small", b(&x.to_le_bytes())]),
        MySqlValue::MediumInt(x) => json!(["medium", b(&x.to_le_bytes())]),
        MySqlValue::Int(x) => json!(["int", b(&x.to_le_bytes())]),
        MySqlValue::BigInt(x) => json!(["big", b(&x.to_le_bytes())]),
        MySqlValue::Float(x) => json!(["float", b(&x.to_le_bytes())]),
        MySqlValue::Double(x) => json!(["double", b(&x.to_le_bytes())]),
        MySqlValue::Decimal(x) => json!(["dec", s(x)]),
        MySqlValue::String(x) => json!(["str", s(x)]),
        MySqlValue::Bit(x) => json!(["bit", bits(x)]),
        MySqlValue::Enum(x) => json!(["enum", b(&x.to_le_bytes())]),
        MySqlValue::Set(x) => json!(["set", b(&x.to_le_bytes())]),
        MySqlValue::Blob(x) => json!(["blob", b(x)]),
        MySqlValue::Year(x) => json!(["year", x]),
        MySqlValue::Date(x) => json!(["date", x.year, x.month, x.day]),
        MySqlValue::Time(x) => json!(["time", x.hour, x.minute, x.second, x.millis]),
        MySqlValue::DateTime(x) => json!([
            "dt", x.year, x.month, x.day, x.hour, x.minute, x.second, x.millis
        ]),
        MySqlValue::Timestamp(x) => {
            json!(["ts", b(&(x / 1000).to_le_bytes()), x % 1000])
        }
    }
}

fn row(r: &RowData) -> Value {
    Value::Array(
        r.cells
            .iter()
            .map(|c| match c {
                None => json!([]),
                Some(v) => json!([value(v)]),
            })
            .collect(),
    )
}

fn opt<T>(x: &Option<T>, f: impl Fn(&T) -> Value) -> Value {
    match x {
        None => json!([]),
        Some(v) => json!([f(v)]),
    }
}
fn u32s(x: &Vec<u32>) -> Value {
    Value::Array(x.iter().map(|v| b(&v.to_le_bytes())).collect())
}
fn pairs(x: &Vec<(u32, u32)>) -> Value {
    Value::Array(
        x.iter()
            .map(|(k, v)| json!([b(&k.to_le_bytes()), b(&v.to_le_bytes())]))
            .collect(),
    )
}
fn charset(x: &DefaultCharset) -> Value {
    json!([
        b(&x.default_charset_collation.to_le_bytes()),
        pairs(&x.charset_collations)
    ])
}
fn strs(x: &Vec<String>) -> Value {
    Value::Array(x.iter().map(|v| s(v)).collect())
}
fn strlists(x: &Vec<Vec<String>>) -> Value {
    Value::Array(x.iter().map(strs).collect())
}

fn metadata(m: &TableMetadata) -> Value {
    json!([
        opt(&m.signedness, |x| bits(x)),
        opt(&m.default_charset, charset),
        opt(&m.column_charsets, u32s),
        opt(&m.column_names, strs),
        opt(&m.set_string_values, strlists),
        opt(&m.enum_string_values, strlists),
        opt(&m.geometry_types, u32s),
        opt(&m.simple_primary_keys, u32s),
        opt(&m.primary_keys_with_prefix, pairs),
        opt(&m.enum_and_set_default_charset, charset),
        opt(&m.enum_and_set_column_charsets, u32s),
        opt(&m.column_visibility, |x| bits(x)),
    ])
}

pub fn event(e: &BinlogEvent) -> Value {
    match e {
        BinlogEvent::UnknownEvent => json!(["unknown"]),
        BinlogEvent::WriteRowsEvent(x) => json!([
            "write",
            id6(x.table_id),
            x.flags,
            x.columns_number,
            bits(&x.columns_present),
            Value::Array(x.rows.iter().map(row).collect())
        ]),
        BinlogEvent::DeleteRowsEvent(x) => json!([
            "delete",
            id6(x.table_id),
            x.flags,
            x.columns_number,
            bits(&x.columns_present),
            Value::Array(x.rows.iter().map(row).collect())
        ]),
        BinlogEvent::UpdateRowsEvent(x) => json!([
            "update",
            id6(x.table_id),
            x.flags,
            x.columns_number,
            bits(&x.columns_before_update),
            bits(&x.columns_after_update),
            Value::Array(
                x.rows
                    .iter()
                    .map(|r| json!([row(&r.before_update), row(&r.after_update)]))
                    .collect()
            )
        ]),
        BinlogEvent::XidEvent(x) => json!(["xid", b(&x.xid.to_le_bytes())]),
        BinlogEvent::IntVarEvent(x) => {
            json!(["intvar", x.intvar_type, b(&x.value.to_le_bytes())])
        }
        BinlogEvent::UserVarEvent(x) => json!([
            "uservar",
            s(&x.name),
            match &x.value {
                None => json!([]),
                Some(v) => json!([
                    v.var_type,
                    b(&v.collation.to_le_bytes()),
                    s(&v.value),
                    v.flags
                ]),
            }
        ]),
        BinlogEvent::QueryEvent(x) => json!([
            "query",
            b(&x.thread_id.to_le_bytes()),
            b(&x.duration.to_le_bytes()),
            x.error_code,
            b(&x.status_variables),
            s(&x.database_name),
            s(&x.sql_statement)
        ]),
        BinlogEvent::TableMapEvent(x) => json!([
            "tmap",
            id6(x.table_id),
            s(&x.database_name),
            s(&x.table_name),
            x.column_types,
            x.column_metadata,
            bits(&x.null_bitmap),
            opt(&x.table_metadata, metadata)
        ]),
        BinlogEvent::RotateEvent(x) => {
            json!(["rotate", b(&x.binlog_position.to_le_bytes()), s(&x.binlog_filename)])
        }
        BinlogEvent::RowsQueryEvent(x) => json!(["rowsquery", s(&x.query)]),
        BinlogEvent::HeartbeatEvent(x) => json!(["heartbeat", s(&x.binlog_filename)]),
        BinlogEvent::FormatDescriptionEvent(x) => json!([
            "fde",
            x.binlog_version,
            s(&x.server_version),
            x.checksum_type as u8
        ]),
        BinlogEvent::MySqlGtidEvent(x) => json!([
            "mgtid",
            x.flags,
            b(&x.gtid.source_id.data),
            b(&x.gtid.transaction_id.to_le_bytes())
        ]),
        BinlogEvent::MySqlPrevGtidsEvent(x) => {
            let mut sets: Vec<(Vec<u8>, Value)> = x
                .gtid_set
                .uuid_sets
                .iter()
                .map(|(_, u)| {
                    let iv: Vec<Value> = u
                        .intervals
                        .iter()
                        .map(|i| json!([b(&i.start.to_le_bytes()), b(&i.end.to_le_bytes())]))
                        .collect();
                    let v = json!([b(&u.source_id.data), iv]);
                    (u.source_id.data.to_vec(), v)
                })
                .collect();
            sets.sort_by(|a, b| a.0.cmp(&b.0));
            json!(["mprev", sets.into_iter().map(|x| x.1).collect::<Vec<_>>()])
        }
        BinlogEvent::MariaDbGtidEvent(x) => json!([
            "agtid",
            b(&x.gtid.domain_id.to_le_bytes()),
            b(&x.gtid.server_id.to_le_bytes()),
            b(&x.gtid.sequence.to_le_bytes()),
            x.flags
        ]),
        BinlogEvent::MariaDbGtidListEvent(x) => json!([
            "alist",
            x.gtid_list
                .gtids
                .iter()
                .map(|g| json!([
                    b(&g.domain_id.to_le_bytes()),
                    b(&g.server_id.to_le_bytes()),
                    b(&g.sequence.to_le_bytes())
                ]))
                .collect::<Vec<_>>()
        ]),
    }
}

pub fn hex_uuid(d: &[u8; 16]) -> String {
    let mut o = String::new();
    for (i, x) in d.iter().enumerate() {
        if i == 4 || i == 6 || i == 8 || i == 10 {
            o.push('-');
        }
        o.push_str(&format!("{:02x}", x));
    }
    o
}
