//! The harness' own picture of a session: a tree of JSON values. `lift` reads
//! a library object into it through public fields and getters, `lower_attr`
//! builds a library attribute from it. Independent of the library's Display,
//! Serialize, PartialEq and parsing code.
use serde_json::{json, Value as V};
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

pub fn f32s(f: f32) -> V {
    V::String(format!("{f:?}"))
}
pub fn f64s(f: f64) -> V {
    V::String(format!("{f:?}"))
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn addr(a: &Address) -> V {
    match a {
        Address::Fqdn(f) => json!({ "fqdn": f }),
        Address::Ip(ip) => json!({"ip": ip.to_string()}),
    }
}
pub fn taddr(a: &ExplicitlyTypedAddress) -> V {
    match a {
        ExplicitlyTypedAddress::Fqdn {
            address_type,
            domain,
        } => {
            let t = match address_type {
                AddressType::IpV4 => 4,
                AddressType::IpV6 => 6,
            };
            json!({"fqdn": domain, "t": t})
        }
        ExplicitlyTypedAddress::Ip(ip) => json!({"ip": ip.to_string()}),
    }
}
pub fn conn(c: &SdpConnection) -> V {
    json!({"addr": taddr(&c.address), "ttl": c.ttl, "amount": c.amount})
}
pub fn bw(b: &SdpBandwidth) -> V {
    match b {
        SdpBandwidth::As(n) => json!(["AS", n]),
        SdpBandwidth::Ct(n) => json!(["CT", n]),
        SdpBandwidth::Tias(n) => json!(["TIAS", n]),
        SdpBandwidth::Unknown(s, n) => json!(["?", s, n]),
    }
}
fn dir1(d: &SdpSingleDirection) -> &'static str {
    match d {
        SdpSingleDirection::Send => "send",
        SdpSingleDirection::Recv => "recv",
    }
}
fn ptv(p: &SdpAttributePayloadType) -> V {
    match p {
        SdpAttributePayloadType::PayloadType(n) => json!(n),
        SdpAttributePayloadType::Wildcard => json!("*"),
    }
}
fn xy(x: &SdpAttributeImageAttrXyRange) -> V {
    match x {
        SdpAttributeImageAttrXyRange::Range(a, b, s) => json!({"r": [a, b, s]}),
        SdpAttributeImageAttrXyRange::DiscreteValues(d) => json!({ "d": d }),
    }
}
fn setlist(l: &SdpAttributeImageAttrSetList) -> V {
    match l {
        SdpAttributeImageAttrSetList::Wildcard => json!("*"),
        SdpAttributeImageAttrSetList::Sets(v) => V::Array(
            v.iter()
                .map(|s| {
                    json!({
                        "x": xy(&s.x), "y": xy(&s.y),
                        "sar": s.sar.as_ref().map(|r| match r {
                            SdpAttributeImageAttrSRange::Range(a, b) => json!({"r": [f32s(*a), f32s(*b)]}),
                            SdpAttributeImageAttrSRange::DiscreteValues(d) =>
                                json!({"d": d.iter().map(|f| f32s(*f)).collect::<Vec<_>>()}),
                        }),
                        "par": s.par.as_ref().map(|p| json!([f32s(p.min), f32s(p.max)])),
                        "q": s.q.map(f32s),
                    })
                })
                .collect(),
        ),
    }
}
fn ssrc(s: &SdpAttributeSsrc) -> V {
    json!({"k": "ssrc", "id": s.id, "a": s.attribute, "v": s.value})
}
fn scast(l: &[SdpAttributeSimulcastVersion]) -> V {
    V::Array(
        l.iter()
            .map(|v| V::Array(v.ids.iter().map(|i| json!([i.id, i.paused])).collect()))
            .collect(),
    )
}
pub fn fmtp_params(p: &SdpAttributeFmtpParameters) -> V {
    json!({
        "packetization-mode": p.packetization_mode,
        "level-asymmetry-allowed": p.level_asymmetry_allowed,
        "profile-level-id": p.profile_level_id,
        "max-fs": p.max_fs, "max-cpb": p.max_cpb, "max-dpb": p.max_dpb,
        "max-br": p.max_br, "max-mbps": p.max_mbps, "max-fr": p.max_fr,
        "profile": p.profile, "level-idx": p.level_idx, "tier": p.tier,
        "maxplaybackrate": p.maxplaybackrate, "maxaveragebitrate": p.maxaveragebitrate,
        "usedtx": p.usedtx, "stereo": p.stereo, "useinbandfec": p.useinbandfec, "cbr": p.cbr,
        "ptime": p.ptime, "minptime": p.minptime, "maxptime": p.maxptime,
        "enc": p.encodings, "dtmf": p.dtmf_tones,
        "rtx": p.rtx.as_ref().map(|r| json!([r.apt, r.rtx_time])),
        "unk": p.unknown_tokens,
    })
}
pub fn default_fmtp_params() -> V {
    json!({
        "packetization-mode": 0, "level-asymmetry-allowed": false, "profile-level-id": 0x42000a,
        "max-fs": 0, "max-cpb": 0, "max-dpb": 0, "max-br": 0, "max-mbps": 0, "max-fr": 0,
        "profile": null, "level-idx": null, "tier": null,
        "maxplaybackrate": 48000, "maxaveragebitrate": 0,
        "usedtx": false, "stereo": false, "useinbandfec": false, "cbr": false,
        "ptime": 0, "minptime": 0, "maxptime": 0,
        "enc": [], "dtmf": "", "rtx": null, "unk": [],
    })
}

pub fn attr(a: &SdpAttribute) -> V {
    use SdpAttribute as A;
    match a {
        A::BundleOnly => json!({"k": "bundle-only"}),
        A::EndOfCandidates => json!({"k": "end-of-candidates"}),
        A::ExtmapAllowMixed => json!({"k": "extmap-allow-mixed"}),
        A::IceLite => json!({"k": "ice-lite"}),
        A::IceMismatch => json!({"k": "ice-mismatch"}),
        A::Inactive => json!({"k": "inactive"}),
        A::Recvonly => json!({"k": "recvonly"}),
        A::RtcpMux => json!({"k": "rtcp-mux"}),
        A::RtcpMuxOnly => json!({"k": "rtcp-mux-only"}),
        A::RtcpRsize => json!({"k": "rtcp-rsize"}),
        A::Sendonly => json!({"k": "sendonly"}),
        A::Sendrecv => json!({"k": "sendrecv"}),
        A::IcePwd(s) => json!({"k": "ice-pwd", "s": s}),
        A::IceUfrag(s) => json!({"k": "ice-ufrag", "s": s}),
        A::Identity(s) => json!({"k": "identity", "s": s}),
        A::Label(s) => json!({"k": "label", "s": s}),
        A::Mid(s) => json!({"k": "mid", "s": s}),
        A::IcePacing(n) => json!({"k": "ice-pacing", "n": n}),
        A::MaxMessageSize(n) => json!({"k": "max-message-size", "n": n}),
        A::MaxPtime(n) => json!({"k": "maxptime", "n": n}),
        A::Ptime(n) => json!({"k": "ptime", "n": n}),
        A::SctpPort(n) => json!({"k": "sctp-port", "n": n}),
        A::FrameRate(f) => json!({"k": "framerate", "f": f64s(*f)}),
        A::IceOptions(l) => json!({"k": "ice-options", "l": l}),
        A::Candidate(c) => json!({
            "k": "candidate", "found": c.foundation, "comp": c.component,
            "tr": match c.transport {
                SdpAttributeCandidateTransport::Udp => "udp",
                SdpAttributeCandidateTransport::Tcp => "tcp",
            },
            "prio": c.priority, "addr": addr(&c.address), "port": c.port,
            "typ": match c.c_type {
                SdpAttributeCandidateType::Host => "host",
                SdpAttributeCandidateType::Srflx => "srflx",
                SdpAttributeCandidateType::Prflx => "prflx",
                SdpAttributeCandidateType::Relay => "relay",
            },
            "raddr": c.raddr.as_ref().map(addr), "rport": c.rport,
            "tcptype": c.tcp_type.as_ref().map(|t| match t {
                SdpAttributeCandidateTcpType::Active => "active",
                SdpAttributeCandidateTcpType::Passive => "passive",
                SdpAttributeCandidateTcpType::Simultaneous => "so",
            }),
            "gen": c.generation, "ufrag": c.ufrag, "cost": c.networkcost,
            "ext": c.unknown_extensions.iter().map(|(n, v)| json!([n, v])).collect::<Vec<_>>(),
        }),
        A::DtlsMessage(m) => match m {
            SdpAttributeDtlsMessage::Client(s) => json!({"k": "dtls-message", "role": "client", "s": s}),
            SdpAttributeDtlsMessage::Server(s) => json!({"k": "dtls-message", "role": "server", "s": s}),
        },
        A::Extmap(e) => json!({
            "k": "extmap", "id": e.id,
            "dir": e.direction.as_ref().map(|d| match d {
                SdpAttributeDirection::Recvonly => "recvonly",
                SdpAttributeDirection::Sendonly => "sendonly",
                SdpAttributeDirection::Sendrecv => "sendrecv",
            }),
            "url": e.url, "ext": e.extension_attributes,
        }),
        A::Fingerprint(f) => json!({
            "k": "fingerprint",
            "alg": match f.hash_algorithm {
                SdpAttributeFingerprintHashType::Sha1 => "sha-1",
                SdpAttributeFingerprintHashType::Sha224 => "sha-224",
                SdpAttributeFingerprintHashType::Sha256 => "sha-256",
                SdpAttributeFingerprintHashType::Sha384 => "sha-384",
                SdpAttributeFingerprintHashType::Sha512 => "sha-512",
            },
            "fp": hex(&f.fingerprint),
        }),
        A::Fmtp(f) => json!({"k": "fmtp", "pt": f.payload_type, "p": fmtp_params(&f.parameters)}),
        A::Group(g) => json!({
            "k": "group",
            "sem": match g.semantics {
                SdpAttributeGroupSemantic::LipSynchronization => "LS",
                SdpAttributeGroupSemantic::FlowIdentification => "FID",
                SdpAttributeGroupSemantic::SingleReservationFlow => "SRF",
                SdpAttributeGroupSemantic::AlternateNetworkAddressType => "ANAT",
                SdpAttributeGroupSemantic::ForwardErrorCorrection => "FEC",
                SdpAttributeGroupSemantic::DecodingDependency => "DDP",
                SdpAttributeGroupSemantic::Bundle => "BUNDLE",
            },
            "tags": g.tags,
        }),
        A::ImageAttr(i) => json!({
            "k": "imageattr", "pt": ptv(&i.pt), "send": setlist(&i.send), "recv": setlist(&i.recv),
        }),
        A::Msid(m) => json!({"k": "msid", "id": m.id, "app": m.appdata}),
        A::MsidSemantic(m) => json!({"k": "msid-semantic", "sem": m.semantic, "ids": m.msids}),
        A::Rid(r) => json!({
            "k": "rid", "id": r.id, "dir": dir1(&r.direction), "pts": r.formats,
            "p": {
                "max-width": r.params.max_width, "max-height": r.params.max_height,
                "max-fps": r.params.max_fps, "max-fs": r.params.max_fs,
                "max-br": r.params.max_br, "max-pps": r.params.max_pps,
            },
            "unk": r.params.unknown, "dep": r.depends,
        }),
        A::RemoteCandidate(r) => json!({
            "k": "remote-candidates", "comp": r.component, "addr": addr(&r.address), "port": r.port,
        }),
        A::Rtpmap(r) => json!({
            "k": "rtpmap", "pt": r.payload_type, "name": r.codec_name, "freq": r.frequency, "ch": r.channels,
        }),
        A::Rtcp(r) => json!({"k": "rtcp", "port": r.port, "addr": r.unicast_addr.as_ref().map(taddr)}),
        A::Rtcpfb(r) => json!({
            "k": "rtcp-fb", "pt": ptv(&r.payload_type),
            "typ": match r.feedback_type {
                SdpAttributeRtcpFbType::Ack => "ack",
                SdpAttributeRtcpFbType::Ccm => "ccm",
                SdpAttributeRtcpFbType::Nack => "nack",
                SdpAttributeRtcpFbType::TrrInt => "trr-int",
                SdpAttributeRtcpFbType::Remb => "goog-remb",
                SdpAttributeRtcpFbType::TransCc => "transport-cc",
            },
            "param": r.parameter, "extra": r.extra,
        }),
        A::Sctpmap(s) => json!({"k": "sctpmap", "port": s.port, "ch": s.channels}),
        A::Setup(s) => json!({"k": "setup", "s": match s {
            SdpAttributeSetup::Active => "active",
            SdpAttributeSetup::Actpass => "actpass",
            SdpAttributeSetup::Holdconn => "holdconn",
            SdpAttributeSetup::Passive => "passive",
        }}),
        A::Simulcast(s) => json!({"k": "simulcast", "send": scast(&s.send), "recv": scast(&s.receive)}),
        A::Ssrc(s) => ssrc(s),
        A::SsrcGroup(g, l) => json!({
            "k": "ssrc-group",
            "sem": match g {
                SdpSsrcGroupSemantic::Duplication => "DUP",
                SdpSsrcGroupSemantic::FlowIdentification => "FID",
                SdpSsrcGroupSemantic::ForwardErrorCorrection => "FEC",
                SdpSsrcGroupSemantic::ForwardErrorCorrectionFr => "FEC-FR",
                SdpSsrcGroupSemantic::Sim => "SIM",
            },
            "ssrcs": l.iter().map(ssrc).collect::<Vec<_>>(),
        }),
    }
}

pub fn fmts(f: &SdpFormatList) -> V {
    match f {
        SdpFormatList::Integers(v) => json!({ "i": v }),
        SdpFormatList::Strings(v) => json!({ "s": v }),
    }
}
pub fn media_name(m: &SdpMediaValue) -> &'static str {
    match m {
        SdpMediaValue::Audio => "audio",
        SdpMediaValue::Video => "video",
        SdpMediaValue::Application => "application",
    }
}
pub const PROTOS: [(&str, SdpProtocolValue); 11] = [
    ("UDP/TLS/RTP/SAVPF", SdpProtocolValue::UdpTlsRtpSavpf),
    ("UDP/TLS/RTP/SAVP", SdpProtocolValue::UdpTlsRtpSavp),
    ("RTP/AVP", SdpProtocolValue::RtpAvp),
    ("RTP/AVPF", SdpProtocolValue::RtpAvpf),
    ("RTP/SAVP", SdpProtocolValue::RtpSavp),
    ("RTP/SAVPF", SdpProtocolValue::RtpSavpf),
    ("TCP/DTLS/RTP/SAVP", SdpProtocolValue::TcpDtlsRtpSavp),
    ("TCP/DTLS/RTP/SAVPF", SdpProtocolValue::TcpDtlsRtpSavpf),
    ("DTLS/SCTP", SdpProtocolValue::DtlsSctp),
    ("UDP/DTLS/SCTP", SdpProtocolValue::UdpDtlsSctp),
    ("TCP/DTLS/SCTP", SdpProtocolValue::TcpDtlsSctp),
];
pub fn proto_name(p: &SdpProtocolValue) -> &'static str {
    use SdpProtocolValue as P;
    match p {
        P::UdpTlsRtpSavpf => "UDP/TLS/RTP/SAVPF",
        P::UdpTlsRtpSavp => "UDP/TLS/RTP/SAVP",
        P::RtpAvp => "RTP/AVP",
        P::RtpAvpf => "RTP/AVPF",
        P::RtpSavp => "RTP/SAVP",
        P::RtpSavpf => "RTP/SAVPF",
        P::TcpDtlsRtpSavp => "TCP/DTLS/RTP/SAVP",
        P::TcpDtlsRtpSavpf => "TCP/DTLS/RTP/SAVPF",
        P::DtlsSctp => "DTLS/SCTP",
        P::UdpDtlsSctp => "UDP/DTLS/SCTP",
        P::TcpDtlsSctp => "TCP/DTLS/SCTP",
    }
}
pub fn media(m: &SdpMedia) -> V {
    json!({
        "m": {
            "media": media_name(m.get_type()), "port": m.get_port(), "pc": m.get_port_count(),
            "proto": proto_name(m.get_proto()), "fmt": fmts(m.get_formats()),
        },
        "c": m.get_connection().as_ref().map(conn),
        "b": m.get_bandwidth().iter().map(bw).collect::<Vec<_>>(),
        "a": m.get_attributes().iter().map(attr).collect::<Vec<_>>(),
    })
}
pub fn origin(o: &webrtc_sdp::SdpOrigin) -> V {
    json!({"user": o.username, "sid": o.session_id, "sver": o.session_version, "addr": taddr(&o.unicast_addr)})
}
pub fn session(s: &SdpSession) -> V {
    json!({
        "v": s.version,
        "o": origin(&s.origin),
        "s": s.session,
        "c": s.connection.as_ref().map(conn),
        "b": s.bandwidth.iter().map(bw).collect::<Vec<_>>(),
        "t": s.timing.as_ref().map(|t| json!([t.start, t.stop])),
        "a": s.attribute.iter().map(attr).collect::<Vec<_>>(),
        "media": s.media.iter().map(media).collect::<Vec<_>>(),
    })
}

// ------------------------------------------------------------------ lower

fn st(v: &V) -> String {
    v.as_str().unwrap_or_else(|| panic!("not a string: {v}")).to_owned()
}
fn ost(v: &V) -> Option<String> {
    v.as_str().map(str::to_owned)
}
fn n(v: &V) -> u64 {
    v.as_u64().unwrap_or_else(|| panic!("not a number: {v}"))
}
// Widths are left to inference, so that the harness also builds against a
// library whose fields changed their width.
macro_rules! onum {
    ($v:expr) => {
        $v.as_u64().map(|n| n as _)
    };
}
fn strs(v: &V) -> Vec<String> {
    v.as_array().unwrap().iter().map(st).collect()
}
fn ff32(v: &V) -> f32 {
    v.as_str().unwrap().parse().unwrap()
}
pub fn lower_addr(v: &V) -> Address {
    match v.get("ip") {
        Some(ip) => Address::Ip(ip.as_str().unwrap().parse().unwrap()),
        None => Address::Fqdn(st(&v["fqdn"])),
    }
}
pub fn lower_taddr(v: &V) -> ExplicitlyTypedAddress {
    match v.get("ip") {
        Some(ip) => ExplicitlyTypedAddress::Ip(ip.as_str().unwrap().parse().unwrap()),
        None => ExplicitlyTypedAddress::Fqdn {
            address_type: if n(&v["t"]) == 6 {
                AddressType::IpV6
            } else {
                AddressType::IpV4
            },
            domain: st(&v["fqdn"]),
        },
    }
}
pub fn lower_conn(v: &V) -> SdpConnection {
    SdpConnection {
        address: lower_taddr(&v["addr"]),
        ttl: v["ttl"].as_u64().map(|n| n as _),
        amount: onum!(v["amount"]),
    }
}
pub fn lower_bw(v: &V) -> SdpBandwidth {
    match v[0].as_str().unwrap() {
        "AS" => SdpBandwidth::As(n(&v[1]) as _),
        "CT" => SdpBandwidth::Ct(n(&v[1]) as _),
        "TIAS" => SdpBandwidth::Tias(n(&v[1]) as _),
        _ => SdpBandwidth::Unknown(st(&v[1]), n(&v[2]) as _),
    }
}
fn lower_dir1(v: &V) -> SdpSingleDirection {
    if v == "send" {
        SdpSingleDirection::Send
    } else {
        SdpSingleDirection::Recv
    }
}
fn lower_pt(v: &V) -> SdpAttributePayloadType {
    match v.as_u64() {
        Some(n) => SdpAttributePayloadType::PayloadType(n as _),
        None => SdpAttributePayloadType::Wildcard,
    }
}
fn lower_xy(v: &V) -> SdpAttributeImageAttrXyRange {
    match v.get("r") {
        Some(r) => SdpAttributeImageAttrXyRange::Range(n(&r[0]) as _, n(&r[1]) as _, onum!(r[2])),
        None => SdpAttributeImageAttrXyRange::DiscreteValues(
            v["d"].as_array().unwrap().iter().map(|x| n(x) as _).collect(),
        ),
    }
}
fn lower_sets(v: &V) -> SdpAttributeImageAttrSetList {
    match v.as_array() {
        None => SdpAttributeImageAttrSetList::Wildcard,
        Some(l) => SdpAttributeImageAttrSetList::Sets(
            l.iter()
                .map(|s| SdpAttributeImageAttrSet {
                    x: lower_xy(&s["x"]),
                    y: lower_xy(&s["y"]),
                    sar: match &s["sar"] {
                        V::Null => None,
                        r if r.get("r").is_some() => Some(SdpAttributeImageAttrSRange::Range(
                            ff32(&r["r"][0]),
                            ff32(&r["r"][1]),
                        )),
                        d => Some(SdpAttributeImageAttrSRange::DiscreteValues(
                            d["d"].as_array().unwrap().iter().map(ff32).collect(),
                        )),
                    },
                    par: match &s["par"] {
                        V::Null => None,
                        p => Some(SdpAttributeImageAttrPRange {
                            min: ff32(&p[0]),
                            max: ff32(&p[1]),
                        }),
                    },
                    q: match &s["q"] {
                        V::Null => None,
                        q => Some(ff32(q)),
                    },
                })
                .collect(),
        ),
    }
}
fn lower_ssrc(v: &V) -> SdpAttributeSsrc {
    SdpAttributeSsrc {
        id: n(&v["id"]) as _,
        attribute: ost(&v["a"]),
        value: ost(&v["v"]),
    }
}
fn lower_scast(v: &V) -> Vec<SdpAttributeSimulcastVersion> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|ver| SdpAttributeSimulcastVersion {
            ids: ver
                .as_array()
                .unwrap()
                .iter()
                .map(|i| SdpAttributeSimulcastId {
                    id: st(&i[0]),
                    paused: i[1].as_bool().unwrap(),
                })
                .collect(),
        })
        .collect()
}
pub fn lower_rtpmap(v: &V) -> SdpAttributeRtpmap {
    SdpAttributeRtpmap {
        payload_type: n(&v["pt"]) as _,
        codec_name: st(&v["name"]),
        frequency: n(&v["freq"]) as _,
        channels: onum!(v["ch"]),
    }
}

pub fn lower_attr(v: &V) -> SdpAttribute {
    use SdpAttribute as A;
    match v["k"].as_str().unwrap() {
        "bundle-only" => A::BundleOnly,
        "end-of-candidates" => A::EndOfCandidates,
        "extmap-allow-mixed" => A::ExtmapAllowMixed,
        "ice-lite" => A::IceLite,
        "ice-mismatch" => A::IceMismatch,
        "inactive" => A::Inactive,
        "recvonly" => A::Recvonly,
        "rtcp-mux" => A::RtcpMux,
        "rtcp-mux-only" => A::RtcpMuxOnly,
        "rtcp-rsize" => A::RtcpRsize,
        "sendonly" => A::Sendonly,
        "sendrecv" => A::Sendrecv,
        "ice-pwd" => A::IcePwd(st(&v["s"])),
        "ice-ufrag" => A::IceUfrag(st(&v["s"])),
        "identity" => A::Identity(st(&v["s"])),
        "label" => A::Label(st(&v["s"])),
        "mid" => A::Mid(st(&v["s"])),
        "ice-pacing" => A::IcePacing(n(&v["n"])),
        "max-message-size" => A::MaxMessageSize(n(&v["n"])),
        "maxptime" => A::MaxPtime(n(&v["n"])),
        "ptime" => A::Ptime(n(&v["n"])),
        "sctp-port" => A::SctpPort(n(&v["n"])),
        "framerate" => A::FrameRate(v["f"].as_str().unwrap().parse().unwrap()),
        "ice-options" => A::IceOptions(strs(&v["l"])),
        "candidate" => {
            let mut c = SdpAttributeCandidate::new(
                st(&v["found"]),
                n(&v["comp"]) as _,
                if v["tr"] == "udp" {
                    SdpAttributeCandidateTransport::Udp
                } else {
                    SdpAttributeCandidateTransport::Tcp
                },
                n(&v["prio"]),
                lower_addr(&v["addr"]),
                n(&v["port"]) as _,
                match v["typ"].as_str().unwrap() {
                    "host" => SdpAttributeCandidateType::Host,
                    "srflx" => SdpAttributeCandidateType::Srflx,
                    "prflx" => SdpAttributeCandidateType::Prflx,
                    _ => SdpAttributeCandidateType::Relay,
                },
            );
            if !v["raddr"].is_null() {
                c.raddr = Some(lower_addr(&v["raddr"]));
            }
            c.rport = onum!(v["rport"]);
            c.tcp_type = v["tcptype"].as_str().map(|t| match t {
                "active" => SdpAttributeCandidateTcpType::Active,
                "passive" => SdpAttributeCandidateTcpType::Passive,
                _ => SdpAttributeCandidateTcpType::Simultaneous,
            });
            c.generation = onum!(v["gen"]);
            c.ufrag = ost(&v["ufrag"]);
            c.networkcost = onum!(v["cost"]);
            c.unknown_extensions = v["ext"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| (st(&e[0]), st(&e[1])))
                .collect();
            A::Candidate(c)
        }
        "dtls-message" => A::DtlsMessage(if v["role"] == "client" {
            SdpAttributeDtlsMessage::Client(st(&v["s"]))
        } else {
            SdpAttributeDtlsMessage::Server(st(&v["s"]))
        }),
        "extmap" => A::Extmap(SdpAttributeExtmap {
            id: n(&v["id"]) as _,
            direction: v["dir"].as_str().map(|d| match d {
                "recvonly" => SdpAttributeDirection::Recvonly,
                "sendonly" => SdpAttributeDirection::Sendonly,
                _ => SdpAttributeDirection::Sendrecv,
            }),
            url: st(&v["url"]),
            extension_attributes: ost(&v["ext"]),
        }),
        "fingerprint" => A::Fingerprint(SdpAttributeFingerprint {
            hash_algorithm: match v["alg"].as_str().unwrap() {
                "sha-1" => SdpAttributeFingerprintHashType::Sha1,
                "sha-224" => SdpAttributeFingerprintHashType::Sha224,
                "sha-256" => SdpAttributeFingerprintHashType::Sha256,
                "sha-384" => SdpAttributeFingerprintHashType::Sha384,
                _ => SdpAttributeFingerprintHashType::Sha512,
            },
            fingerprint: unhex(v["fp"].as_str().unwrap()),
        }),
        "fmtp" => {
            let p = &v["p"];
            macro_rules! m {
                ($k:expr) => {
                    n(&p[$k]) as _
                };
            }
            let b = |k: &str| p[k].as_bool().unwrap();
            macro_rules! o8 {
                ($k:expr) => {
                    onum!(p[$k])
                };
            }
            A::Fmtp(SdpAttributeFmtp {
                payload_type: n(&v["pt"]) as _,
                parameters: SdpAttributeFmtpParameters {
                    packetization_mode: m!("packetization-mode"),
                    level_asymmetry_allowed: b("level-asymmetry-allowed"),
                    profile_level_id: m!("profile-level-id"),
                    max_fs: m!("max-fs"),
                    max_cpb: m!("max-cpb"),
                    max_dpb: m!("max-dpb"),
                    max_br: m!("max-br"),
                    max_mbps: m!("max-mbps"),
                    max_fr: m!("max-fr"),
                    profile: o8!("profile"),
                    level_idx: o8!("level-idx"),
                    tier: o8!("tier"),
                    maxplaybackrate: m!("maxplaybackrate"),
                    maxaveragebitrate: m!("maxaveragebitrate"),
                    usedtx: b("usedtx"),
                    stereo: b("stereo"),
                    useinbandfec: b("useinbandfec"),
                    cbr: b("cbr"),
                    ptime: m!("ptime"),
                    minptime: m!("minptime"),
                    maxptime: m!("maxptime"),
                    encodings: p["enc"].as_array().unwrap().iter().map(|x| n(x) as _).collect(),
                    dtmf_tones: st(&p["dtmf"]),
                    rtx: match &p["rtx"] {
                        V::Null => None,
                        r => Some(RtxFmtpParameters {
                            apt: n(&r[0]) as _,
                            rtx_time: onum!(r[1]),
                        }),
                    },
                    unknown_tokens: strs(&p["unk"]),
                },
            })
        }
        "group" => A::Group(SdpAttributeGroup {
            semantics: match v["sem"].as_str().unwrap() {
                "LS" => SdpAttributeGroupSemantic::LipSynchronization,
                "FID" => SdpAttributeGroupSemantic::FlowIdentification,
                "SRF" => SdpAttributeGroupSemantic::SingleReservationFlow,
                "ANAT" => SdpAttributeGroupSemantic::AlternateNetworkAddressType,
                "FEC" => SdpAttributeGroupSemantic::ForwardErrorCorrection,
                "DDP" => SdpAttributeGroupSemantic::DecodingDependency,
                _ => SdpAttributeGroupSemantic::Bundle,
            },
            tags: strs(&v["tags"]),
        }),
        "imageattr" => A::ImageAttr(SdpAttributeImageAttr {
            pt: lower_pt(&v["pt"]),
            send: lower_sets(&v["send"]),
            recv: lower_sets(&v["recv"]),
        }),
        "msid" => A::Msid(SdpAttributeMsid {
            id: st(&v["id"]),
            appdata: ost(&v["app"]),
        }),
        "msid-semantic" => A::MsidSemantic(SdpAttributeMsidSemantic {
            semantic: st(&v["sem"]),
            msids: strs(&v["ids"]),
        }),
        "rid" => {
            macro_rules! m {
                ($k:expr) => {
                    n(&v["p"][$k]) as _
                };
            }
            A::Rid(SdpAttributeRid {
                id: st(&v["id"]),
                direction: lower_dir1(&v["dir"]),
                formats: v["pts"].as_array().unwrap().iter().map(|x| n(x) as _).collect(),
                params: SdpAttributeRidParameters {
                    max_width: m!("max-width"),
                    max_height: m!("max-height"),
                    max_fps: m!("max-fps"),
                    max_fs: m!("max-fs"),
                    max_br: m!("max-br"),
                    max_pps: m!("max-pps"),
                    unknown: strs(&v["unk"]),
                },
                depends: strs(&v["dep"]),
            })
        }
        "remote-candidates" => A::RemoteCandidate(SdpAttributeRemoteCandidate {
            component: n(&v["comp"]) as _,
            address: lower_addr(&v["addr"]),
            port: n(&v["port"]) as _,
        }),
        "rtpmap" => A::Rtpmap(lower_rtpmap(v)),
        "rtcp" => {
            let mut r = SdpAttributeRtcp::new(n(&v["port"]) as _);
            if !v["addr"].is_null() {
                r.unicast_addr = Some(lower_taddr(&v["addr"]));
            }
            A::Rtcp(r)
        }
        "rtcp-fb" => A::Rtcpfb(SdpAttributeRtcpFb {
            payload_type: lower_pt(&v["pt"]),
            feedback_type: match v["typ"].as_str().unwrap() {
                "ack" => SdpAttributeRtcpFbType::Ack,
                "ccm" => SdpAttributeRtcpFbType::Ccm,
                "nack" => SdpAttributeRtcpFbType::Nack,
                "trr-int" => SdpAttributeRtcpFbType::TrrInt,
                "goog-remb" => SdpAttributeRtcpFbType::Remb,
                _ => SdpAttributeRtcpFbType::TransCc,
            },
            parameter: st(&v["param"]),
            extra: st(&v["extra"]),
        }),
        "sctpmap" => A::Sctpmap(SdpAttributeSctpmap {
            port: n(&v["port"]) as _,
            channels: n(&v["ch"]) as _,
        }),
        "setup" => A::Setup(match v["s"].as_str().unwrap() {
            "active" => SdpAttributeSetup::Active,
            "actpass" => SdpAttributeSetup::Actpass,
            "holdconn" => SdpAttributeSetup::Holdconn,
            _ => SdpAttributeSetup::Passive,
        }),
        "simulcast" => A::Simulcast(SdpAttributeSimulcast {
            send: lower_scast(&v["send"]),
            receive: lower_scast(&v["recv"]),
        }),
        "ssrc" => A::Ssrc(lower_ssrc(v)),
        "ssrc-group" => A::SsrcGroup(
            match v["sem"].as_str().unwrap() {
                "DUP" => SdpSsrcGroupSemantic::Duplication,
                "FID" => SdpSsrcGroupSemantic::FlowIdentification,
                "FEC" => SdpSsrcGroupSemantic::ForwardErrorCorrection,
                "FEC-FR" => SdpSsrcGroupSemantic::ForwardErrorCorrectionFr,
                _ => SdpSsrcGroupSemantic::Sim,
            },
            v["ssrcs"].as_array().unwrap().iter().map(lower_ssrc).collect(),
        ),
        k => panic!("unknown attribute kind {k}"),
    }
}

pub fn lower_media_line(m: &V) -> SdpMediaLine {
    SdpMediaLine {
        media: lower_media_value(&m["media"]),
        port: n(&m["port"]) as _,
        port_count: n(&m["pc"]) as _,
        proto: lower_proto(&m["proto"]),
        formats: match m["fmt"].get("i") {
            Some(i) => SdpFormatList::Integers(
                i.as_array().unwrap().iter().map(|x| n(x) as _).collect(),
            ),
            None => SdpFormatList::Strings(strs(&m["fmt"]["s"])),
        },
    }
}
pub fn lower_media_value(v: &V) -> SdpMediaValue {
    match v.as_str().unwrap() {
        "audio" => SdpMediaValue::Audio,
        "video" => SdpMediaValue::Video,
        _ => SdpMediaValue::Application,
    }
}
pub fn lower_proto(v: &V) -> SdpProtocolValue {
    PROTOS
        .iter()
        .find(|(nm, _)| v == nm)
        .map(|(_, p)| p.clone())
        .unwrap()
}
pub fn lower_origin(o: &V) -> SdpOrigin {
    SdpOrigin {
        username: st(&o["user"]),
        session_id: n(&o["sid"]),
        session_version: n(&o["sver"]),
        unicast_addr: lower_taddr(&o["addr"]),
    }
}
/// Builds the media section through the editing API.
pub fn lower_media(v: &V) -> Result<SdpMedia, String> {
    let mut m = SdpMedia::new(lower_media_line(&v["m"]));
    if !v["c"].is_null() {
        m.set_connection(lower_conn(&v["c"]));
    }
    for b in v["b"].as_array().unwrap() {
        m.add_bandwidth(lower_bw(b));
    }
    for a in v["a"].as_array().unwrap() {
        m.add_attribute(lower_attr(a)).map_err(|e| e.to_string())?;
    }
    Ok(m)
}
/// Builds the session through the editing API, as a local endpoint would.
pub fn lower_session(v: &V) -> Result<SdpSession, String> {
    let mut s = SdpSession::new(
        n(&v["v"]),
        lower_origin(&v["o"]),
        v["s"].as_str().unwrap_or("").to_owned(),
    );
    if !v["c"].is_null() {
        s.set_connection(lower_conn(&v["c"]));
    }
    for b in v["b"].as_array().unwrap() {
        s.add_bandwidth(lower_bw(b));
    }
    if !v["t"].is_null() {
        s.set_timing(SdpTiming {
            start: n(&v["t"][0]),
            stop: n(&v["t"][1]),
        });
    }
    for a in v["a"].as_array().unwrap() {
        s.add_attribute(lower_attr(a)).map_err(|e| e.to_string())?;
    }
    let mut ms = Vec::new();
    for m in v["media"].as_array().unwrap() {
        ms.push(lower_media(m)?);
    }
    s.extend_media(ms);
    Ok(s)
}

// ------------------------------------------------------------------ canon

/// What a description means on the wire: representation differences that
/// carry no information are removed.
pub fn canon(mut t: V) -> V {
    fn attrs(a: &mut V) {
        let l = a.as_array_mut().unwrap();
        let dflt = default_fmtp_params();
        l.retain(|a| !(a["k"] == "fmtp" && a["p"] == dflt));
        for a in l.iter_mut() {
            // an empty identifier depends on nothing
            if let Some(V::Array(d)) = a.get_mut("dep") {
                d.iter_mut().for_each(|x| *x = json!(x.as_str().unwrap().trim()));
                d.retain(|x| x != "");
            }
            // blanks around an unknown restriction are spelling
            if a["k"] == "rid" {
                for x in a["unk"].as_array_mut().unwrap() {
                    *x = json!(x.as_str().unwrap().trim());
                }
            }
            if a["k"] == "msid-semantic" && a["ids"].as_array().unwrap().is_empty() {
                a["ids"] = json!(["*"]);
            }
        }
    }
    attrs(&mut t["a"]);
    for m in t["media"].as_array_mut().unwrap() {
        attrs(&mut m["a"]);
        if let Some(i) = m["m"]["fmt"].get("i") {
            let s: Vec<String> = i.as_array().unwrap().iter().map(|n| n.to_string()).collect();
            m["m"]["fmt"] = json!({ "s": s });
        }
    }
    t
}

/// First difference between two trees, as (path, left, right).
pub fn diff(a: &V, b: &V) -> Option<(String, String, String)> {
    fn go(a: &V, b: &V, path: &mut Vec<String>) -> Option<(String, String, String)> {
        match (a, b) {
            (V::Object(x), V::Object(y)) => {
                for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))) {
                    path.push(k.clone());
                    let d = match (x.get(k), y.get(k)) {
                        (Some(p), Some(q)) => go(p, q, path),
                        (p, q) => Some((path.join("."), format!("{p:?}"), format!("{q:?}"))),
                    };
                    if d.is_some() {
                        return d;
                    }
                    path.pop();
                }
                None
            }
            (V::Array(x), V::Array(y)) if x.len() == y.len() => {
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    let kind = p.get("k").and_then(V::as_str).unwrap_or("");
                    path.push(if kind.is_empty() { i.to_string() } else { format!("{i}<{kind}>") });
                    let d = go(p, q, path);
                    if d.is_some() {
                        return d;
                    }
                    path.pop();
                }
                None
            }
            _ if a == b => None,
            _ => {
                let cut = |v: &V| {
                    let s = v.to_string();
                    if s.len() > 400 {
                        let mut e = 400;
                        while !s.is_char_boundary(e) {
                            e -= 1;
                        }
                        format!("{}...", &s[..e])
                    } else {
                        s
                    }
                };
                Some((path.join("."), cut(a), cut(b)))
            }
        }
    }
    go(a, b, &mut Vec::new())
}
