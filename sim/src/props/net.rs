//! Objects read over the network.
use super::io::gzip;
use super::*;

pub fn all() -> Vec<Prop> {
    vec![Prop {
        id: "P14",
        gen: p14_gen,
        check: p14_check,
        quick: 18_000,
        thorough: 720_000,
        rule: "Random commands with an s3:// operand served by a simulated endpoint that chunks, delays, refuses, resets, stalls, truncates, corrupts or answers with errors; compared with the same command on a local file holding the same bytes.",
        shrink_files: true,
        real: "the whole cdx binary including the AWS SDK, the HTTP client and the tokio runtime it links, on simulated time",
        stub: "the network and the S3 endpoint (sockets, chunking, delays, failures), clock, random source, files as for the other properties",
    }]
}
const URLS: [&str; 6] = ["bkt/key.txt", "bkt/a/b/key", "other-bucket/x.gz", "bkt/sp%41ce", "b1/deep/er/still/deeper.tsv", "bkt/k+y=1"];

fn reply(kind: &str, body: &[u8], cut: usize) -> Vec<u8> {
    let mut v;
    match kind {
        "ok" | "trunc" | "sum" | "flip" => {
            v = b"HTTP/1.1 200 OK\r\nETag: \"5d41402abc4b2a76b9719d911017c592\"\r\nContent-Type: text/plain\r\n".to_vec();
            if kind == "sum" || kind == "flip" {
                let mut c = flate2::Crc::new();
                c.update(body);
                v.extend_from_slice(format!("x-amz-checksum-crc32: {}\r\n", base64(&c.sum().to_be_bytes())).as_bytes());
            }
            v.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            let h = v.len();
            v.extend_from_slice(body);
            if kind == "flip" && !body.is_empty() {
                let n = cut % body.len();
                v[h + n] ^= 1 << (cut % 7);
            }
        }
        "chunked" | "chtrunc" => {
            v = b"HTTP/1.1 200 OK\r\nETag: \"x\"\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec();
            let step = 1 + cut % 5000;
            for c in body.chunks(step) {
                v.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                v.extend_from_slice(c);
                v.extend_from_slice(b"\r\n");
            }
            v.extend_from_slice(b"0\r\n\r\n");
        }
        "garbage" => v = b"SSH-2.0-OpenSSH_9.6\r\n".to_vec(),
        k => {
            let (code, name) = match k {
                "404" => ("404 Not Found", "NoSuchKey"),
                "403" => ("403 Forbidden", "AccessDenied"),
                "500" => ("500 Internal Server Error", "InternalError"),
                "301" => ("301 Moved Permanently", "PermanentRedirect"),
                _ => ("503 Slow Down", "SlowDown"),
            };
            let xml = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Error><Code>{name}</Code><Message>no</Message></Error>");
            v = format!("HTTP/1.1 {code}\r\nContent-Type: application/xml\r\nContent-Length: {}\r\n\r\n{xml}", xml.len()).into_bytes();
        }
    }
    v
}
fn base64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
fn p14_gen(r: &mut Rng, _i: u64) -> Case {
    let (mut which, mut m, mut c);
    loop {
        which = *r.pick(&["cat", "cat", "cut", "cgrep", "sort", "uniq", "join", "paste", "wc", "transpose"]);
        (m, c) = cmd_case(r, Want { stream_only: true, input_only: true, cap: 120_000, only: Some(which), ..Want::default() });
        // results that name the input cannot be compared
        let names = m.args.iter().any(|a| a.contains("name.") || a == "-f" && which == "wc");
        if !m.early && !m.inputs.is_empty() && !names && !(which == "wc" && m.inputs.len() > 1) {
            break;
        }
    }
    let at: Vec<usize> = m.inputs.iter().copied().filter(|i| m.files.iter().any(|f| f.0 == m.args[*i])).collect();
    if at.is_empty() {
        return c;
    }
    let mut run = c.runs[0].clone();
    let mut s3: Vec<String> = Vec::new();
    let k = if matches!(which, "cat" | "sort") && at.len() > 1 && r.pct(40) { 2 } else { 1 };
    let first = r.below(at.len() + 1 - k);
    for i in 0..k {
        s3.push(m.args[at[first + i]].clone());
        run.args[at[first + i]] = format!("s3://{}", URLS[r.below(URLS.len())]);
    }
    if k == 2 && s3[0] == s3[1] {
        s3.truncate(1);
        run.args[at[first + 1]].clone_from(&s3[0]);
    }
    if r.pct(15) {
        for n in &s3 {
            if let Some(f) = c.files.iter_mut().find(|f| f.0 == *n) {
                f.1 = gzip(r, &f.1).0;
            }
        }
    }
    c.set_list("s3", &s3);
    for e in ["AWS_ACCESS_KEY_ID=sim", "AWS_SECRET_ACCESS_KEY=sim", "AWS_REGION=us-east-1", "AWS_ENDPOINT_URL=http://127.0.0.1:9000", "SSL_CERT_FILE=@ROOT/bin/ca.pem", "AWS_EC2_METADATA_DISABLED=true"] {
        run.env.push(e.into());
    }
    let mut kinds: Vec<String> = Vec::new();
    for _ in 0..s3.len() {
        // what the endpoint does, attempt after attempt, for this object
        let bad = r.pct(45);
        let mut seq: Vec<&str> = Vec::new();
        if r.pct(25) {
            for _ in 0..r.range(1, 2) {
                seq.push(r.pick(&["503", "500", "refuse", "reset0"]));
            }
        }
        seq.push(if bad { r.pick(&["trunc", "trunc", "trunc", "flip", "chtrunc", "404", "403", "301", "garbage", "500x3", "503x3", "refusex3", "stall", "reset", "reset"]) } else { r.pick(&["ok", "ok", "sum", "chunked"]) });
        for s in seq {
            match s.strip_suffix("x3") {
                Some(x) => kinds.extend([x, x, x].map(String::from)),
                None => kinds.push(s.into()),
            }
        }
    }
    kinds.truncate(8);
    for k in &kinds {
        let mut x = Resp { end: i32::from(r.pct(50)), ..Resp::default() };
        match r.below(4) {
            0 => {}
            1 => {
                x.mode = M_FIXED;
                x.p1 = *r.pick(&[1, 3, 20, 100, 1000, 8192, 20_000]);
            }
            _ => {
                x.mode = M_RANDOM;
                x.p1 = *r.pick(&[2, 10, 100, 1000, 5000, 30_000]);
            }
        }
        if r.pct(30) {
            x.delay_us = *r.pick(&[10, 1000, 50_000, 200_000]);
        }
        match k.as_str() {
            "refuse" => x.refuse = *r.pick(&[libc::ECONNREFUSED, libc::ENETUNREACH, libc::ETIMEDOUT]),
            "reset0" | "reset" => x.end = 2,
            "stall" => x.end = 3,
            "trunc" | "chtrunc" => x.end = *r.pick(&[1, 1, 2]),
            "chunked" | "ok" | "sum" | "flip" => {}
            _ => x.end = i32::from(r.pct(50)),
        }
        run.resps.push(x);
    }
    c.set_list("kinds", &kinds);
    c.set("cut", r.below(1_000_000));
    if r.pct(12) {
        let e = *r.pick(&[libc::ECONNRESET, libc::ETIMEDOUT, libc::EHOSTUNREACH]);
        run.faults.push(match r.below(3) {
            0 => Fault::err_nth(Ch::Sock, OP_CONNECT, 0, e, 1),
            1 => Fault::err_nth(Ch::Sock, OP_RECV, r.below(12) as i64, e, 1),
            _ => Fault::err_nth(Ch::Sock, OP_SEND, 0, e, 1),
        });
    }
    run.rand_seed = r.next() >> 1;
    c.runs.push(run);
    c
}
fn p14_check(w: &mut World, c: &Case) -> Check {
    if c.runs.len() < 2 {
        return Ok(false);
    }
    let (o, base) = fresh(w, c, &c.runs[0].calm());
    sane(&o)?;
    // build what the endpoint sends from the object's bytes
    let mut r = c.runs[1].clone();
    let kinds = c.list("kinds");
    let s3 = c.list("s3");
    let cut = c.num("cut") as usize;
    let mut j = 0;
    let (mut lossless, mut clean) = (true, r.faults.is_empty());
    let mut total = 0;
    let mut owner = Vec::new();
    for (k, x) in kinds.iter().zip(r.resps.iter_mut()) {
        if j >= s3.len() {
            break;
        }
        let body = c.file(&s3[j]);
        owner.push(j);
        x.bytes = match k.as_str() {
            "refuse" | "reset0" => vec![],
            "reset" | "stall" | "trunc" => {
                let v = reply("trunc", body, 0);
                // a server that never begins to answer is waited for without limit, so a stall is in the body
                let head = v.len() - body.len();
                let n = if k == "stall" { head + cut % body.len().max(1) } else { cut % v.len() };
                v[..n].to_vec()
            }
            "chtrunc" => {
                let v = reply(k, body, cut / 7);
                let n = cut % (v.len() - 4);
                v[..n].to_vec()
            }
            _ => reply(k, body, cut),
        };
        total += x.bytes.len();
        if x.mode != M_WHOLE {
            x.p1 = x.p1.max(1 + (x.bytes.len() / 2000) as i32);
        }
        let retried = matches!(k.as_str(), "refuse" | "reset0" | "500" | "503");
        let good = matches!(k.as_str(), "ok" | "sum" | "chunked");
        // delays long enough to count as a stall are not part of a healthy network
        if x.delay_us > 0 && x.mode != M_WHOLE {
            x.delay_us = x.delay_us.min(400_000_000 / (1 + x.bytes.len() as i64 / i64::from(x.p1.max(1))));
        }
        clean &= good;
        if !retried {
            lossless &= good || matches!(k.as_str(), "flip" | "stall") && body.is_empty();
            j += 1;
        }
    }
    if j < s3.len() {
        // every attempt for the last object failed
        lossless = false;
    }
    if total > 900_000 {
        return Ok(false);
    }
    let (o2, got) = fresh(w, c, &r);
    sane2(&o2)?;
    w.stats.probe(if clean { "healthy endpoint" } else if lossless { "retried" } else { "failing endpoint" });
    if got.status.ok() {
        if !lossless {
            return viol("an object that could not be fetched completely was accepted", format!("endpoint {kinds:?}; {}", o2.err_text()));
        }
        compare("an object differs from a local file", &base, &got, &o2)?;
        // the right objects were asked for
        let mut want: Vec<String> = r.args.iter().filter_map(|a| a.strip_prefix("s3://").map(str::to_string)).collect();
        let mut seen: Vec<String> = Vec::new();
        for (k, q) in o2.requests.iter().enumerate().take(o2.resp_used as usize) {
            if q.is_empty() || kinds.get(k).is_none_or(|x| !matches!(x.as_str(), "ok" | "sum" | "chunked" | "stall" | "flip")) {
                continue;
            }
            let path = q.split(' ').nth(1).unwrap_or("").trim_start_matches('/');
            let path = path.split('?').next().unwrap_or("");
            seen.push(unpercent(path));
        }
        want.truncate(seen.len().max(want.len()));
        if want != seen {
            return viol("wrong object requested", format!("{want:?} became {seen:?}"));
        }
    } else if clean {
        compare("an object differs from a local file", &base, &got, &o2)?;
    } else if o2.stderr.is_empty() {
        return viol("failure without a diagnostic", format!("{:?}", got.status));
    }
    Ok(!base.stdout.is_empty())
}
fn unpercent(s: &str) -> String {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                v.push(x);
                i += 3;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&v).to_string()
}
