//! Reads JSON requests {src, script?, ts?, filename?, opts?, plain?, es5?} one per line, answers {code, cov} per line.
use std::io::BufRead;
use swc_core::common::comments::SingleThreadedComments;
use swc_core::common::{sync::Lrc, FileName, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::ast::*;
use swc_core::ecma::codegen::{text_writer::JsWriter, Config, Emitter};
use swc_core::ecma::parser::{parse_file_as_module, parse_file_as_script, EsSyntax, Syntax, TsSyntax};
use swc_core::ecma::preset_env::transform_from_es_version;
use swc_core::ecma::transforms::base::{assumptions::Assumptions, fixer::fixer, helpers::{inject_helpers, Helpers, HELPERS}, hygiene::hygiene, resolver};
use swc_core::ecma::visit::visit_mut_pass;
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

fn main() {
    for line in std::io::stdin().lock().lines() {
        let r: serde_json::Value = serde_json::from_str(&line.unwrap()).unwrap();
        let name = r["filename"].as_str().unwrap_or("/p/f.js").to_string();
        let ts = r["ts"].as_bool().unwrap_or(false);
        let mut o = r["opts"].clone();
        if o.is_null() {
            o = serde_json::json!({});
        }
        o["debugInitialCoverageComment"] = true.into();
        let opts: InstrumentOptions = serde_json::from_value(o).unwrap();
        let plain = r["plain"].as_bool().unwrap_or(false);
        let es5 = r["es5"].as_bool().unwrap_or(false);
        let out = GLOBALS.set(&Globals::new(), || HELPERS.set(&Helpers::new(false), || {
            let cm: Lrc<SourceMap> = Default::default();
            let comments = SingleThreadedComments::default();
            let fm = cm.new_source_file(FileName::Real(name.clone().into()).into(), r["src"].as_str().unwrap().to_string());
            let syntax = if ts { Syntax::Typescript(TsSyntax::default()) } else { Syntax::Es(EsSyntax { jsx: true, ..Default::default() }) };
            let mut p = if r["script"].as_bool().unwrap_or(false) {
                Program::Script(parse_file_as_script(&fm, syntax, EsVersion::EsNext, Some(&comments), &mut vec![]).unwrap())
            } else {
                Program::Module(parse_file_as_module(&fm, syntax, EsVersion::EsNext, Some(&comments), &mut vec![]).unwrap())
            };
            let (um, tm) = (Mark::new(), Mark::new());
            p.mutate(resolver(um, tm, ts));
            if !plain {
                p.mutate(visit_mut_pass(create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), opts, name)));
            }
            let mut cov = None;
            {
                let (l, t) = comments.borrow_all();
                for (_, cs) in l.iter().chain(t.iter()) {
                    for c in cs {
                        if let Some(x) = c.text.strip_prefix("__coverage_data_json_comment__::") {
                            cov = Some(x.to_string());
                        }
                    }
                }
            }
            if es5 {
                p.mutate(transform_from_es_version(um, Some(comments.clone()), EsVersion::Es5, Assumptions::default(), false));
                p.mutate(inject_helpers(um));
            }
            p.mutate(hygiene());
            p.mutate(fixer(Some(&comments)));
            let mut buf = vec![];
            {
                let wr = JsWriter::new(cm.clone(), "\n", &mut buf, None);
                let mut e = Emitter { cfg: Config::default().with_target(EsVersion::EsNext), cm: cm.clone(), comments: None, wr };
                e.emit_program(&p).unwrap();
            }
            serde_json::json!({ "code": String::from_utf8(buf).unwrap(), "cov": cov })
        }));
        println!("{}", out);
    }
}
