//! Every publicly reachable piece of a session that can be rendered, printed
//! for debugging or exported on its own.
use std::fmt::{self, Debug, Display, Write};
use webrtc_sdp::attribute_type::{SdpAttribute as A, *};
use webrtc_sdp::media_type::{SdpFormatList, SdpMedia};
use webrtc_sdp::SdpSession;

pub trait Part {
    fn text(&self, w: &mut dyn Write) -> fmt::Result;
    fn debug(&self, w: &mut dyn Write, pretty: bool) -> fmt::Result;
    fn json(&self, w: &mut dyn std::io::Write, pretty: bool) -> serde_json::Result<()>;
}
impl<T: Display + Debug + serde::Serialize> Part for T {
    fn text(&self, w: &mut dyn Write) -> fmt::Result {
        write!(w, "{self}")
    }
    fn debug(&self, w: &mut dyn Write, pretty: bool) -> fmt::Result {
        if pretty {
            write!(w, "{self:#?}")
        } else {
            write!(w, "{self:?}")
        }
    }
    fn json(&self, w: &mut dyn std::io::Write, pretty: bool) -> serde_json::Result<()> {
        if pretty {
            serde_json::to_writer_pretty(w, self)
        } else {
            serde_json::to_writer(w, self)
        }
    }
}

pub type Parts<'a> = Vec<(&'static str, &'a dyn Part)>;

macro_rules! add {
    ($v:ident, $n:expr, $e:expr) => {
        $v.push(($n, $e as &dyn Part))
    };
}

fn xy<'a>(v: &mut Parts<'a>, s: &'a SdpAttributeImageAttrSetList) {
    add!(v, "imageattr set list", s);
    if let SdpAttributeImageAttrSetList::Sets(l) = s {
        for s in l {
            add!(v, "imageattr set", s);
            add!(v, "imageattr range", &s.x);
            add!(v, "imageattr range", &s.y);
            if let Some(r) = &s.sar {
                add!(v, "imageattr sar", r);
            }
            if let Some(r) = &s.par {
                add!(v, "imageattr par", r);
            }
        }
    }
}

pub fn of_attr<'a>(v: &mut Parts<'a>, a: &'a A) {
    add!(v, "attribute", a);
    match a {
        A::Candidate(c) => {
            add!(v, "candidate", c);
            add!(v, "address", &c.address);
            add!(v, "candidate transport", &c.transport);
            add!(v, "candidate type", &c.c_type);
            if let Some(r) = &c.raddr {
                add!(v, "address", r);
            }
            if let Some(t) = &c.tcp_type {
                add!(v, "candidate tcp type", t);
            }
        }
        A::DtlsMessage(x) => add!(v, "dtls-message", x),
        A::Extmap(x) => {
            add!(v, "extmap", x);
            if let Some(d) = &x.direction {
                add!(v, "direction", d);
            }
        }
        A::Fingerprint(x) => {
            add!(v, "fingerprint", x);
            add!(v, "hash type", &x.hash_algorithm);
        }
        A::Fmtp(x) => {
            add!(v, "fmtp", x);
            add!(v, "fmtp parameters", &x.parameters);
            if let Some(r) = &x.parameters.rtx {
                add!(v, "rtx parameters", r);
            }
        }
        A::Group(x) => {
            add!(v, "group", x);
            add!(v, "group semantic", &x.semantics);
        }
        A::ImageAttr(x) => {
            add!(v, "imageattr", x);
            add!(v, "payload type", &x.pt);
            xy(v, &x.send);
            xy(v, &x.recv);
        }
        A::Msid(x) => add!(v, "msid", x),
        A::MsidSemantic(x) => add!(v, "msid-semantic", x),
        A::Rid(x) => {
            add!(v, "rid", x);
            add!(v, "rid parameters", &x.params);
            add!(v, "single direction", &x.direction);
        }
        A::RemoteCandidate(x) => {
            add!(v, "remote-candidate", x);
            add!(v, "address", &x.address);
        }
        A::Rtpmap(x) => add!(v, "rtpmap", x),
        A::Rtcp(x) => {
            add!(v, "rtcp", x);
            if let Some(u) = &x.unicast_addr {
                add!(v, "typed address", u);
            }
        }
        A::Rtcpfb(x) => {
            add!(v, "rtcp-fb", x);
            add!(v, "payload type", &x.payload_type);
            add!(v, "feedback type", &x.feedback_type);
        }
        A::Sctpmap(x) => add!(v, "sctpmap", x),
        A::Setup(x) => add!(v, "setup", x),
        A::Simulcast(x) => {
            add!(v, "simulcast", x);
            for l in x.send.iter().chain(&x.receive) {
                add!(v, "simulcast version", l);
                for i in &l.ids {
                    add!(v, "simulcast id", i);
                }
            }
        }
        A::Ssrc(x) => add!(v, "ssrc", x),
        A::SsrcGroup(s, l) => {
            add!(v, "ssrc-group semantic", s);
            for x in l {
                add!(v, "ssrc", x);
            }
        }
        _ => {}
    }
}

fn of_media<'a>(v: &mut Parts<'a>, m: &'a SdpMedia) {
    add!(v, "media section", m);
    add!(v, "media type", m.get_type());
    add!(v, "protocol", m.get_proto());
    let f: &SdpFormatList = m.get_formats();
    add!(v, "formats", f);
    if let Some(c) = m.get_connection() {
        add!(v, "connection", c);
        add!(v, "typed address", &c.address);
    }
    for b in m.get_bandwidth() {
        add!(v, "bandwidth", b);
    }
    for a in m.get_attributes() {
        of_attr(v, a);
    }
}

pub fn of(s: &SdpSession) -> Parts<'_> {
    let mut v: Parts = Vec::new();
    add!(v, "session", s);
    add!(v, "origin", &s.origin);
    add!(v, "typed address", &s.origin.unicast_addr);
    if let Some(c) = &s.connection {
        add!(v, "connection", c);
        add!(v, "typed address", &c.address);
    }
    if let Some(t) = &s.timing {
        add!(v, "timing", t);
    }
    for b in &s.bandwidth {
        add!(v, "bandwidth", b);
    }
    for a in &s.attribute {
        of_attr(&mut v, a);
    }
    for m in &s.media {
        of_media(&mut v, m);
    }
    for w in &s.warnings {
        add!(v, "diagnostic", w);
    }
    v
}
