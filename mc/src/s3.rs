//! Stand-in for the S3 service: answers the requests of the vendored rusoto_core from `bucket/` in the world.
#![allow(dead_code)]
use crate::shim;
use rusoto_core::request::{HttpDispatchError, HttpResponse, MC_HOOK};
use rusoto_core::signature::{SignedRequest, SignedRequestPayload};
use std::ffi::CString;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll};

pub const ENDPOINT: &str = "s3.test";
pub const BUCKET: &str = "bkt";

#[derive(Clone, Debug, PartialEq)]
pub enum Dev {
    /// answer with this status and error code instead of doing anything
    Status(u16, String),
    /// do what was asked, but answer with this status (the client must not take it for success)
    LateStatus(u16),
    Conn,
    /// connection breaks after the request was carried out
    LateConn,
    Flip(usize, u8),
    Trunc(usize),
    Extend(usize),
    /// the body ends with a connection error after n bytes
    Break(usize),
    /// whole other content with the old checksum
    Other,
    EtagWrong,
    EtagNone,
    EtagEmpty,
    /// only the first n digits of the checksum
    EtagCut(usize),
    /// more digits than a checksum has
    EtagExt,
    /// the n-th digit is another one
    EtagDigit(usize),
    /// a checksum that says nothing about the body, which breaks off after n bytes
    MultiBreak(usize),
    LenNone,
    /// content-length header of the shortened body (consistent headers, wrong content)
    TruncLen(usize),
    /// listing: cut the XML after n/1000 of its bytes
    ListCut(usize),
    ListGarbage,
    ListEmpty,
    /// the uploaded bytes were damaged on the way: the service notices the digest mismatch
    Damage,
    /// object vanished since it was listed
    Gone,
}
pub const GAPS: usize = 10_000;
#[derive(Clone, Debug, Default)]
pub struct S3Cfg {
    /// keys per page of a listing; + GAPS: with empty pages before, between and after them
    pub page: usize,
    pub devs: Vec<(u32, Dev)>,
    pub delays: Vec<u8>, // polls before the n-th upload completes
}
struct State {
    cfg: S3Cfg,
    dir: PathBuf,
    nreq: u32,
    nput: u32,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);

pub fn configure(cfg: &S3Cfg, dir: &Path) {
    *STATE.lock().unwrap() = Some(State { cfg: cfg.clone(), dir: dir.to_path_buf(), nreq: 0, nput: 0 });
}
/// Once per controller: route every request here and build the shared client.
pub fn install() {
    let _ = MC_HOOK.set(Box::new(handle));
    std::mem::forget(rusoto_core::Client::shared());
}
/// Keys as file names: percent-encoded, long runs of one letter as "%~" count letter (a key may be longer than a file name).
pub fn enc(key: &str) -> String {
    let mut s = String::new();
    let bytes = key.as_bytes();
    let mut i = 0;
    while i < bytes.len() {
        let b = bytes[i];
        let run = bytes[i..].iter().take_while(|x| **x == b).take(999).count();
        if run >= 20 && b.is_ascii_alphanumeric() {
            s += &format!("%~{:03}{}", run, b as char);
            i += run;
            continue;
        }
        i += 1;
        if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) {
            s.push(b as char)
        } else {
            s += &format!("%{:02X}", b)
        }
    }
    s
}
pub fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 5 < b.len() && b[i + 1] == b'~' {
            if let Some(n) = s.get(i + 2..i + 5).and_then(|n| n.parse::<usize>().ok()) {
                v.extend(vec![b[i + 5]; n]);
                i += 6;
                continue;
            }
        }
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                v.push(x);
                i += 3;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&v).into_owned()
}
fn xml(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}
struct Delay(u8);
impl std::future::Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
struct Quiet;
impl Quiet {
    fn new() -> Quiet {
        unsafe { shim::shim_thread_on(0) };
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe { shim::shim_thread_on(1) };
    }
}
fn resp(status: u16, headers: &[(&str, String)], chunks: Vec<Result<bytes::Bytes, std::io::Error>>) -> HttpResponse {
    let mut h: http::HeaderMap<String> = http::HeaderMap::default();
    for (k, v) in headers {
        h.insert(http::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.clone());
    }
    HttpResponse { status: http::StatusCode::from_u16(status).unwrap(), body: rusoto_core::ByteStream::new(futures::stream::iter(chunks)), headers: h }
}
fn plain(status: u16, body: String) -> HttpResponse {
    resp(status, &[("content-length", body.len().to_string())], vec![Ok(body.into_bytes().into())])
}
fn error(status: u16, code: &str) -> HttpResponse {
    plain(status, format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Error><Code>{}</Code><Message>stand-in</Message></Error>", code))
}
fn conn() -> HttpDispatchError {
    HttpDispatchError::new("stand-in: connection broken".into())
}
fn handle(req: SignedRequest) -> rusoto_core::request::DispatchSignedRequestFuture {
    let method = req.method().to_string();
    let host = req.hostname();
    let path = dec(&req.canonical_path());
    let query: Vec<(String, String)> = req
        .canonical_query_string()
        .split('&')
        .filter(|x| !x.is_empty())
        .map(|kv| {
            let mut i = kv.splitn(2, '=');
            (dec(i.next().unwrap()), dec(i.next().unwrap_or("")))
        })
        .collect();
    let hdr = |k: &str| req.headers().get(k).and_then(|v| v.first()).map(|v| String::from_utf8_lossy(v).into_owned());
    let md5_hdr = hdr("content-md5");
    let copy_hdr = hdr("x-amz-copy-source");
    let payload = req.payload;
    Box::pin(answer(method, host, path, query, md5_hdr, copy_hdr.is_some(), payload))
}
async fn answer(
    method: String,
    host: String,
    path: String,
    query: Vec<(String, String)>,
    md5_hdr: Option<String>,
    is_copy: bool,
    payload: Option<SignedRequestPayload>,
) -> Result<HttpResponse, HttpDispatchError> {
    let q = |k: &str| query.iter().find(|(a, _)| a == k).map(|(_, b)| b.clone());
    // path style or virtual host style
    let key = if host == format!("{}.{}", BUCKET, ENDPOINT) {
        path.trim_start_matches('/').to_string()
    } else if host == ENDPOINT && (path == format!("/{}", BUCKET) || path.starts_with(&format!("/{}/", BUCKET))) {
        let k = &path[BUCKET.len() + 1..];
        k.strip_prefix('/').unwrap_or(k).to_string()
    } else {
        return Ok(error(404, "NoSuchBucket"));
    };
    let mut body = vec![];
    match payload {
        Some(SignedRequestPayload::Buffer(b)) => body = b.to_vec(),
        Some(SignedRequestPayload::Stream(s)) => {
            use futures::StreamExt;
            let mut s = s;
            while let Some(c) = s.next().await {
                body.extend_from_slice(&c.map_err(|_| conn())?);
            }
        }
        None => {}
    }
    let (n, dir, dev, page, delay) = {
        let _q = Quiet::new();
        let mut g = STATE.lock().unwrap();
        let s = g.as_mut().unwrap();
        let n = s.nreq;
        s.nreq += 1;
        let mut delay = 0;
        if method == "PUT" {
            delay = s.cfg.delays.get(s.nput as usize).copied().unwrap_or(0);
            s.nput += 1;
        }
        (n, s.dir.clone(), s.cfg.devs.iter().find(|d| d.0 == n).map(|d| d.1.clone()), if s.cfg.page == 0 { 1000 } else { s.cfg.page }, delay)
    };
    let _ = n;
    let what = if key.is_empty() { format!("LIST {}", q("prefix").unwrap_or_default()) } else { format!("{} {}", method, key) };
    let mutating = method != "GET" && method != "HEAD";
    let mut arg = 0i64;
    let act = unsafe { shim::shim_s3_event(CString::new(what.replace('\0', "?")).unwrap().as_ptr(), body.len() as i64, mutating as i32, &mut arg) };
    if act == shim::P_ERR {
        return Err(conn());
    }
    if act == shim::P_KILLPART && arg == 0 {
        unsafe { shim::shim_die() };
    }
    Delay(delay).await;
    let die = act == shim::P_KILLPART;
    let _q = Quiet::new();
    let fp = dir.join(enc(&key));
    match &dev {
        Some(Dev::Status(s, c)) => return Ok(error(*s, c)),
        Some(Dev::Conn) => return Err(conn()),
        _ => {}
    }
    let done = |r: Result<HttpResponse, HttpDispatchError>| {
        if die {
            unsafe { shim::shim_die() };
        }
        match &dev {
            Some(Dev::LateStatus(s)) => Ok(error(*s, "InternalError")),
            Some(Dev::LateConn) => Err(conn()),
            _ => r,
        }
    };
    if key.is_empty() {
        if method != "GET" {
            return Ok(error(405, "MethodNotAllowed"));
        }
        let prefix = q("prefix").unwrap_or_default();
        let delim = q("delimiter").unwrap_or_default();
        let token = q("continuation-token");
        let (page, gaps) = (page % GAPS, page >= GAPS);
        let page = if page == 0 { 1000 } else { page };
        let gap = gaps && !token.as_deref().map_or(false, |t| t.starts_with("gap-"));
        let after = token.clone().map(|t| dec(&t[4..])).or_else(|| q("start-after")).or_else(|| q("marker")).unwrap_or_default();
        let page = q("max-keys").and_then(|m| m.parse::<usize>().ok()).map_or(page, |m| m.min(page));
        let mut keys: Vec<(String, u64)> = std::fs::read_dir(&dir)
            .unwrap()
            .flatten()
            .map(|e| (dec(e.file_name().to_str().unwrap()), e.metadata().unwrap().len()))
            .filter(|(k, _)| k.starts_with(&prefix) && (after.is_empty() || *k > after))
            .collect();
        keys.sort();
        let mut items = String::new();
        let mut count = 0;
        let mut last = String::new();
        let mut more = gap && token.as_deref() != Some("tok-end");
        let mut seen_prefix: Vec<String> = vec![];
        for (k, len) in keys.iter().filter(|_| !gap) {
            let rest = &k[prefix.len()..];
            let common = if delim.is_empty() { None } else { rest.find(&delim).map(|i| format!("{}{}{}", prefix, &rest[..i], delim)) };
            if let Some(c) = &common {
                if seen_prefix.contains(c) {
                    last = k.clone();
                    continue;
                }
            }
            if count == page {
                more = true;
                break;
            }
            count += 1;
            last = k.clone();
            match common {
                Some(c) => {
                    items += &format!("<CommonPrefixes><Prefix>{}</Prefix></CommonPrefixes>", xml(&c));
                    seen_prefix.push(c);
                }
                None => items += &format!("<Contents><Key>{}</Key><LastModified>2020-01-01T00:00:00.000Z</LastModified><ETag>&quot;x&quot;</ETag><Size>{}</Size><StorageClass>STANDARD</StorageClass></Contents>", xml(k), len),
            }
        }
        if gap {
            last = after;
        } else if gaps && !more {
            more = true;
            last = "end".into();
        }
        let tok = if more && gap {
            format!("<NextContinuationToken>gap-{}</NextContinuationToken>", enc(&last))
        } else if more { format!("<NextContinuationToken>tok-{}</NextContinuationToken><NextMarker>{}</NextMarker>", enc(&last), xml(&last)) } else { String::new() };
        let mut b = format!(
            "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ListBucketResult xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\"><Name>{}</Name><Prefix>{}</Prefix><KeyCount>{}</KeyCount><MaxKeys>{}</MaxKeys><IsTruncated>{}</IsTruncated>{}{}</ListBucketResult>",
            BUCKET, xml(&prefix), count, page, more, tok, items
        );
        match &dev {
            Some(Dev::ListCut(n)) => b.truncate(n * b.len() / 1000),
            Some(Dev::ListGarbage) => b = "<html>proxy login</html>".into(),
            Some(Dev::ListEmpty) => b = String::new(),
            Some(Dev::Break(n)) => {
                let n = n * b.len() / 1000;
                let head = b.as_bytes()[..n].to_vec();
                return Ok(resp(200, &[("content-length", b.len().to_string())], vec![Ok(head.into()), Err(std::io::Error::new(std::io::ErrorKind::Other, "stand-in: broken"))]));
            }
            _ => {}
        }
        return done(Ok(plain(200, b)));
    }
    match method.as_str() {
        "GET" | "HEAD" => {
            if std::fs::metadata(&fp).map_or(false, |m| m.len() > crate::fix::HUGE) {
                // only there to be listed
                return Err(conn());
            }
            let mut b = match std::fs::read(&fp) {
                Ok(b) if dev != Some(Dev::Gone) => b,
                _ => return done(Ok(error(404, "NoSuchKey"))),
            };
            let mut etag = Some(format!("\"{:x}\"", md5::compute(&b)));
            let mut len = Some(b.len());
            let mut tail = None;
            match &dev {
                Some(Dev::Flip(i, x)) if !b.is_empty() => {
                    let i = i % b.len();
                    b[i] ^= x
                }
                Some(Dev::Trunc(n)) => b.truncate(*n),
                Some(Dev::TruncLen(n)) => {
                    b.truncate(*n);
                    len = Some(b.len())
                }
                Some(Dev::Extend(n)) => b.extend(std::iter::repeat(0u8).take(*n)),
                Some(Dev::Other) => b = b"something else entirely".to_vec(),
                Some(Dev::Break(n)) => {
                    b.truncate(*n);
                    tail = Some(Err(std::io::Error::new(std::io::ErrorKind::Other, "stand-in: broken")))
                }
                Some(Dev::EtagWrong) => etag = Some("\"00000000000000000000000000000000\"".into()),
                Some(Dev::EtagNone) => etag = None,
                Some(Dev::EtagCut(n)) => etag = Some(format!("\"{}\"", &format!("{:x}", md5::compute(&b))[..*n])),
                Some(Dev::EtagExt) => etag = Some(format!("\"{:x}0\"", md5::compute(&b))),
                Some(Dev::EtagDigit(n)) => {
                    let mut d = format!("{:x}", md5::compute(&b)).into_bytes();
                    d[*n] = if d[*n] == b'7' { b'8' } else { b'7' };
                    etag = Some(format!("\"{}\"", String::from_utf8(d).unwrap()))
                }
                Some(Dev::MultiBreak(n)) => {
                    etag = Some(format!("\"{:x}-2\"", md5::compute(&b)));
                    b.truncate(*n);
                    tail = Some(Err(std::io::Error::new(std::io::ErrorKind::Other, "stand-in: broken")))
                }
                Some(Dev::EtagEmpty) => etag = Some("\"\"".into()),
                Some(Dev::LenNone) => len = None,
                _ => {}
            }
            let mut h = vec![];
            if let Some(e) = etag {
                h.push(("ETag", e));
            }
            if let Some(l) = len {
                h.push(("content-length", l.to_string()));
            }
            let mut ch = vec![];
            if method == "GET" {
                // two chunks or more, so that the reader has to put them together
                let m = if b.len() < 20_000 { b.len() / 2 + 1 } else { 16_000 };
                ch.extend(b.chunks(m).map(|c| Ok(c.to_vec().into())));
                ch.extend(tail);
            }
            done(Ok(resp(200, &h, ch)))
        }
        "PUT" => {
            if is_copy {
                return Ok(error(501, "NotImplemented"));
            }
            if dev == Some(Dev::Damage) {
                if body.is_empty() {
                    body.push(0)
                } else {
                    body[0] ^= 1
                }
            }
            if let Some(m) = md5_hdr {
                if m != base64::encode(&*md5::compute(&body)) {
                    return done(Ok(error(400, "BadDigest")));
                }
            }
            let md = format!("\"{:x}\"", md5::compute(&body));
            std::fs::write(&fp, &body).unwrap();
            done(Ok(resp(200, &[("ETag", md), ("content-length", "0".into())], vec![])))
        }
        "DELETE" => {
            let _ = std::fs::remove_file(&fp);
            done(Ok(resp(204, &[], vec![])))
        }
        _ => Ok(error(405, "MethodNotAllowed")),
    }
}
