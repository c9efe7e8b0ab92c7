//! JSON-lines instrumentation service: one request per line on stdin, one
//! response per line on stdout. An empty line flushes the output.
use serde::Deserialize;
use std::io::{BufRead, BufWriter, Write};
use swc_core::ecma::ast::EsVersion;
use swccov_mc::*;

#[derive(Deserialize)]
struct Req {
    src: String,
    #[serde(default = "dflt_name")]
    filename: String,
    #[serde(default)]
    opts: Option<serde_json::Value>,
    /// Several option sets for the same source; overrides `opts`.
    #[serde(default)]
    variants: Option<Vec<serde_json::Value>>,
    #[serde(default)]
    script: bool,
    #[serde(default)]
    ts: bool,
    #[serde(default)]
    tsx: bool,
    #[serde(default)]
    strip: Option<Strip>,
    #[serde(default)]
    jsx: bool,
    /// Additional compilations for older targets, answered in `lowered`.
    #[serde(default)]
    targets: Vec<u16>,
    #[serde(default)]
    target: Option<u16>,
    #[serde(default)]
    keep_comments: bool,
    #[serde(default)]
    plain: bool,
    /// Answer with source maps; the plain output then has its comments too.
    #[serde(default)]
    map: bool,
}
fn dflt_name() -> String {
    "/p/f.js".into()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // deep stacks for deep programs
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(run)
        .unwrap()
        .join()
        .unwrap();
}

fn around(r: &Req) -> Around {
    Around {
        mode: if r.script { Mode::Script } else { Mode::Module },
        lang: if r.tsx { Lang::Tsx } else if r.ts { Lang::Ts } else { Lang::Js },
        strip: r.strip.unwrap_or(Strip::No),
        jsx: r.jsx,
        map: r.map,
        target: r.target.map(|t| match t { 5 => EsVersion::Es5, 2015 => EsVersion::Es2015, 2016 => EsVersion::Es2016, 2017 => EsVersion::Es2017, 2018 => EsVersion::Es2018, 2019 => EsVersion::Es2019, 2020 => EsVersion::Es2020, 2021 => EsVersion::Es2021, 2022 => EsVersion::Es2022, _ => EsVersion::EsNext }),
    }
}

fn one(r: &Req, opts: Option<serde_json::Value>) -> serde_json::Value {
    // Harness fields ride along in the options.
    let keep = r.keep_comments || opts.as_ref().map_or(false, |o| o["__comments"] == true);
    let name = opts.as_ref().and_then(|o| o["__filename"].as_str().map(|s| s.to_string())).unwrap_or_else(|| r.filename.clone());
    let res = catch(|| {
        let opts = match opts {
            Some(v) => serde_json::from_value(v).map_err(|e| format!("opts: {}", e))?,
            None => Default::default(),
        };
        pipeline(&r.src, &name, Some(opts), around(r), keep)
    });
    match res {
        Ok(o) if o.map.is_some() => serde_json::json!({"code": o.code, "cov": o.comment, "map": o.map}),
        Ok(o) => serde_json::json!({"code": o.code, "cov": o.comment}),
        Err(e) => serde_json::json!({"err": e}),
    }
}

fn answer(r: &Req, variants: &Option<Vec<serde_json::Value>>, opts: &Option<serde_json::Value>) -> serde_json::Value {
    let mut v = match variants {
        Some(vs) => serde_json::json!({ "outs": vs.iter().map(|o| one(r, Some(o.clone()))).collect::<Vec<_>>() }),
        None => one(r, opts.clone()),
    };
    if r.plain {
        match catch(|| pipeline(&r.src, &r.filename, None, around(r), r.map && r.keep_comments)) {
            Ok(o) => {
                v["plain"] = o.code.into();
                if let Some(m) = o.map {
                    v["plain_map"] = serde_json::json!(m);
                }
            }
            Err(e) => v["plain_err"] = e.into(),
        }
    }
    v
}

fn run() {
    let stdin = std::io::stdin();
    let mut out = BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            out.flush().unwrap();
            continue;
        }
        let mut r: Req = serde_json::from_str(&line).expect("bad request");
        let variants = r.variants.take();
        let opts = r.opts.take();
        let mut v = answer(&r, &variants, &opts);
        if !r.targets.is_empty() {
            let mut low = serde_json::Map::new();
            for t in std::mem::take(&mut r.targets) {
                r.target = Some(t);
                low.insert(t.to_string(), answer(&r, &variants, &opts));
            }
            v["lowered"] = low.into();
        }
        serde_json::to_writer(&mut out, &v).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}
