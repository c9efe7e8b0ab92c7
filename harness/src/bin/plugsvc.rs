//! JSON-lines service around the plugin's entry point. Every request runs in a
//! process of its own, as every transform runs in a wasm instance of its own;
//! what the plugin prints goes nowhere.
use serde::Deserialize;
use std::io::{BufRead, BufWriter, Read, Write};
use std::os::fd::FromRawFd;
use swc_core::common::comments::SingleThreadedComments;
use swc_core::common::{sync::Lrc, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::transforms::base::{fixer::fixer, hygiene::hygiene, resolver};
use swc_core::ecma::visit::visit_mut_pass;
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};
use swccov_mc::*;
use swccov_shim::plugin::proxies::{Host, TransformPluginProgramMetadata};

#[derive(Deserialize, Clone)]
#[serde(rename_all = "camelCase")]
struct Direct {
    coverage_variable: String,
    compact: bool,
    report_logic: bool,
    ignore_class_methods: Vec<String>,
    input_source_map: Option<serde_json::Value>,
    debug_initial_coverage_comment: bool,
}

#[derive(Deserialize)]
struct Req {
    src: String,
    #[serde(default)]
    script: bool,
    /// the name the source has in the source map
    #[serde(default)]
    real: Option<String>,
    #[serde(default)]
    filename: Option<String>,
    #[serde(default)]
    config: Option<String>,
    /// without a comment store
    #[serde(default)]
    nocomments: bool,
    /// not the plugin, but the instrumentation visitor with these options
    #[serde(default)]
    direct: Option<Direct>,
    /// neither
    #[serde(default)]
    plain: bool,
    /// several plugin calls: [filename, config]; answers only "was it changed"
    #[serde(default)]
    many: Option<Vec<(Option<String>, Option<String>)>>,
    /// the same program several times
    #[serde(default)]
    variants: Option<Vec<Variant>>,
}

#[derive(Deserialize)]
struct Variant {
    #[serde(default)]
    config: Option<String>,
    #[serde(default)]
    direct: Option<Direct>,
    #[serde(default)]
    plain: bool,
}

fn work(r: &Req, filename: &Option<String>, config: &Option<String>) -> Result<Out, String> {
    GLOBALS.set(&Globals::new(), || {
        // swc hands the plugin a shared source map; the shim's metadata owns it
        let cm: Lrc<SourceMap> = Default::default();
        let comments = SingleThreadedComments::default();
        let name = r.real.clone().or(filename.clone()).unwrap_or("anonymous".into());
        let mode = if r.script { Mode::Script } else { Mode::Module };
        let mut program = parse(&cm, &comments, &name, &r.src, mode, Lang::Js)?;
        let (um, tm) = (Mark::new(), Mark::new());
        program.mutate(resolver(um, tm, false));
        if r.plain {
        } else if let Some(d) = &r.direct {
            let o = InstrumentOptions {
                coverage_variable: d.coverage_variable.clone(),
                compact: d.compact,
                report_logic: d.report_logic,
                ignore_class_methods: d.ignore_class_methods.clone(),
                input_source_map: d.input_source_map.clone().map(|m| serde_json::from_value(m).expect("source map")),
                debug_initial_coverage_comment: d.debug_initial_coverage_comment,
                ..Default::default()
            };
            program.mutate(visit_mut_pass(create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), o, filename.clone().unwrap())));
        } else {
            let own = SourceMap::default();
            for f in cm.files().iter() {
                own.new_source_file(f.name.clone(), f.src.to_string());
            }
            let metadata = TransformPluginProgramMetadata {
                comments: if r.nocomments { None } else { Some(comments.clone()) },
                source_map: own,
                unresolved_mark: um,
                host: Host { config: config.clone(), filename: filename.clone(), env: Some("test".into()), cwd: Some("/".into()) },
            };
            program = swccov_plugin::process(program, metadata);
        }
        let comment = debug_comment(&comments);
        program.mutate(hygiene());
        program.mutate(fixer(Some(&comments)));
        let code = emit(&cm, None, &program);
        Ok(Out { code, comment, map: None })
    })
}

fn answer(r: &Req) -> String {
    if let Some(m) = &r.many {
        let p = Req { src: r.src.clone(), script: r.script, real: r.real.clone(), filename: None, config: None, nocomments: false, direct: None, plain: true, many: None, variants: None };
        let base = catch(|| work(&p, &None, &None).map(|o| o.code)).expect("plain");
        let s: String = m
            .iter()
            .map(|(f, c)| match catch(|| work(r, f, c)) {
                Ok(o) if o.code == base => 'x',
                Ok(_) => 'i',
                Err(_) => 'E',
            })
            .collect();
        return serde_json::json!({ "many": s }).to_string();
    }
    if let Some(vs) = &r.variants {
        let outs: Vec<_> = vs
            .iter()
            .map(|v| {
                let q = Req { src: r.src.clone(), script: r.script, real: r.real.clone(), filename: None, config: None, nocomments: r.nocomments, direct: v.direct.clone(), plain: v.plain, many: None, variants: None };
                match catch(|| work(&q, &r.filename, &v.config)) {
                    Ok(o) => serde_json::json!({"code": o.code, "cov": o.comment}),
                    Err(e) => serde_json::json!({"err": e}),
                }
            })
            .collect();
        return serde_json::json!({ "outs": outs }).to_string();
    }
    match catch(|| work(r, &r.filename, &r.config)) {
        Ok(o) => serde_json::json!({"code": o.code, "cov": o.comment}).to_string(),
        Err(e) => serde_json::json!({"err": e}).to_string(),
    }
}

fn forked(f: impl FnOnce() -> String) -> String {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let _ = w.write_all(f().as_bytes());
            drop(w);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut s = String::new();
        let ok = std::fs::File::from_raw_fd(fds[0]).read_to_string(&mut s).is_ok();
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if ok && st == 0 && !s.is_empty() { s } else { serde_json::json!({ "err": format!("the process ended with status {}", st) }).to_string() }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        BufWriter::new(std::fs::File::from_raw_fd(fd))
    };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            out.flush().unwrap();
            continue;
        }
        let r: Req = serde_json::from_str(&line).expect("bad request");
        let s = forked(|| answer(&r));
        out.write_all(s.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}
