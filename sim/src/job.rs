//! A unit of work every build of the library must do alike (C14). Shared by the
//! simulator and the peers, which are other builds of the same library.
use crate::model;
use serde_json::{json, Value as V};
use webrtc_sdp::anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
use webrtc_sdp::attribute_type::SdpAttributeType;
use webrtc_sdp::error::SdpParserError;
use webrtc_sdp::{SdpSession, SdpType};

fn diagnostic(e: &SdpParserError) -> V {
    let text = e.to_string();
    match e {
        SdpParserError::Line { line, line_number, .. } => json!(["line", line, line_number, text]),
        SdpParserError::Unsupported { line, line_number, .. } => json!(["unsupported", line, line_number, text]),
        SdpParserError::Sequence { line_number, .. } => json!(["sequence", line_number, text]),
    }
}
fn say(s: &SdpSession) -> V {
    json!({"tree": model::session(s), "text": s.to_string()})
}

fn edit(s: &mut SdpSession, e: &V) -> V {
    let i = e["i"].as_u64().unwrap_or(0) as usize;
    let n = s.media.len();
    let done = |r: Result<(), webrtc_sdp::error::SdpParserInternalError>| match r {
        Ok(()) => json!("done"),
        Err(e) => json!(["refused", e.to_string()]),
    };
    match e["op"].as_str().unwrap() {
        "connection" => s.set_connection(model::lower_conn(&e["v"])),
        "bandwidth" => s.add_bandwidth(model::lower_bw(&e["v"])),
        "attribute" => return done(s.add_attribute(model::lower_attr(&e["v"]))),
        _ if n == 0 => return json!("nothing"),
        op => {
            let m = &mut s.media[i % n];
            match op {
                "m-connection" => m.set_connection(model::lower_conn(&e["v"])),
                "m-bandwidth" => m.add_bandwidth(model::lower_bw(&e["v"])),
                "m-attribute" => return done(m.add_attribute(model::lower_attr(&e["v"]))),
                "m-set" => return done(m.set_attribute(model::lower_attr(&e["v"]))),
                "m-remove" => m.remove_attribute(SdpAttributeType::from(&model::lower_attr(&e["v"]))),
                "m-codec" => return done(m.add_codec(model::lower_rtpmap(&e["v"]))),
                "m-no-codecs" => m.remove_codecs(),
                "m-port" => m.set_port(e["v"].as_u64().unwrap() as _),
                "m-datachannel" => {
                    return done(m.add_datachannel(
                        e["v"].as_str().unwrap().to_owned(),
                        e["port"].as_u64().unwrap() as _,
                        e["streams"].as_u64().unwrap() as _,
                        e["size"].as_u64().unwrap() as _,
                    ))
                }
                op => panic!("unknown edit {op}"),
            }
        }
    }
    json!("done")
}

/// Each line on its own and in a small description of its own.
fn crowd(lines: &[V]) -> V {
    let one = |l: &V| {
        let l = l.as_str().unwrap();
        let alone = match webrtc_sdp::parse_sdp_line(l, 7) {
            Err(e) => return json!({"rejected": diagnostic(&e)}),
            Ok(l) => match l.sdp_type {
                SdpType::Attribute(a) => json!([model::attr(&a), a.to_string()]),
                SdpType::Connection(c) => json!([model::conn(&c), c.to_string()]),
                SdpType::Bandwidth(b) => json!([model::bw(&b), b.to_string()]),
                _ => json!(l.text),
            },
        };
        let (top, end) = match l.get(..2) {
            Some("a=" | "c=" | "b=") => ("", l),
            _ => (l, ""),
        };
        let text = format!("v=0\r\no=- 1 1 IN IP4 0.0.0.0\r\ns=-\r\nt=0 0\r\n{top}\r\nm=audio 9 UDP/TLS/RTP/SAVPF 0 96\r\nc=IN IP4 0.0.0.0\r\n{end}\r\n");
        json!({"line": alone, "in": respond(&json!({"text": text, "strict": false, "edits": []}))})
    };
    lines.iter().map(one).collect()
}

pub fn respond(req: &V) -> V {
    if let Some(lines) = req["lines"].as_array() {
        return crowd(lines);
    }
    let built = &req["build"];
    let mut s = if built.is_object() {
        match model::lower_session(built) {
            Ok(s) => s,
            Err(e) => return json!({ "refused": e }),
        }
    } else {
        match webrtc_sdp::parse_sdp(req["text"].as_str().unwrap(), req["strict"] == true) {
            Ok(s) => s,
            Err(e) => return json!({"rejected": diagnostic(&e)}),
        }
    };
    let warnings: Vec<V> = s.warnings.iter().map(diagnostic).collect();
    let read = say(&s);
    let mut a = StatefulSdpAnonymizer::new();
    let masked = say(&s.masked_clone(&mut a));
    let again = match webrtc_sdp::parse_sdp(read["text"].as_str().unwrap(), true) {
        Ok(s) => say(&s.masked_clone(&mut a)),
        Err(e) => diagnostic(&e),
    };
    let edits: Vec<V> = req["edits"].as_array().unwrap().iter().map(|e| edit(&mut s, e)).collect();
    let edited = say(&s);
    let verdict = match webrtc_sdp::parse_sdp(edited["text"].as_str().unwrap(), false) {
        Ok(s) => say(&s),
        Err(e) => diagnostic(&e),
    };
    json!({
        "read": read, "warnings": warnings, "masked": masked, "reread-masked": again,
        "edits": edits, "edited": edited, "reread-edited": verdict,
    })
}
