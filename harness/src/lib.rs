//! Shared driver around the real instrumentation code: parse -> resolver ->
//! coverage visitor -> (hygiene, fixer) -> codegen, the order in which swc runs
//! a plugin / custom pass.
use swc_core::common::comments::{Comments, SingleThreadedComments};
use swc_core::common::{sync::Lrc, FileName, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::ast::*;
use swc_core::ecma::codegen::{text_writer::JsWriter, Config, Emitter};
use swc_core::ecma::parser::{parse_file_as_module, parse_file_as_script, EsSyntax, Syntax, TsSyntax};
use swc_core::ecma::transforms::base::{fixer::fixer, helpers::{inject_helpers, Helpers, HELPERS}, hygiene::hygiene, resolver};
use swc_core::ecma::visit::visit_mut_pass;
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Module,
    Script,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lang {
    Js,
    Ts,
    Tsx,
}

/// When TypeScript (and decorators) are compiled away: swc does it before
/// plugins and custom passes see the program, or (runPluginFirst) after.
#[derive(Clone, Copy, PartialEq, Debug, serde::Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Strip {
    No,
    Before,
    After,
}

/// The passes around the instrumentation.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Around {
    pub mode: Mode,
    pub lang: Lang,
    pub strip: Strip,
    /// compile JSX afterwards (classic runtime, `J(type, props, ...children)`)
    pub jsx: bool,
    /// compile for an older target afterwards, modules to CommonJS
    pub target: Option<EsVersion>,
    /// answer with the source map
    pub map: bool,
}

pub fn parse(
    cm: &Lrc<SourceMap>,
    comments: &SingleThreadedComments,
    filename: &str,
    src: &str,
    mode: Mode,
    lang: Lang,
) -> Result<Program, String> {
    let fm = cm.new_source_file(
        FileName::Real(filename.into()).into(),
        src.to_string(),
    );
    let syntax = match lang {
        Lang::Js => Syntax::Es(EsSyntax { jsx: true, explicit_resource_management: true, import_attributes: true, ..Default::default() }),
        Lang::Tsx => Syntax::Typescript(TsSyntax { tsx: true, decorators: true, ..Default::default() }),
        Lang::Ts => Syntax::Typescript(TsSyntax { decorators: true, ..Default::default() }),
    };
    let mut errs = vec![];
    let r = match mode {
        Mode::Module => parse_file_as_module(&fm, syntax, EsVersion::EsNext, Some(comments), &mut errs).map(Program::Module),
        Mode::Script => parse_file_as_script(&fm, syntax, EsVersion::EsNext, Some(comments), &mut errs).map(Program::Script),
    };
    match r {
        Ok(p) if errs.is_empty() => Ok(p),
        Ok(_) => Err(format!("parse: {:?}", errs)),
        Err(e) => Err(format!("parse: {:?}", e)),
    }
}

pub fn emit(cm: &Lrc<SourceMap>, comments: Option<&SingleThreadedComments>, program: &Program) -> String {
    emit_mapped(cm, comments, program, None)
}

/// (byte offset in the file, line and column of the output), as the printer records them
pub type Mapping = (u32, u32, u32);

pub fn emit_mapped(cm: &Lrc<SourceMap>, comments: Option<&SingleThreadedComments>, program: &Program, map: Option<&mut Vec<Mapping>>) -> String {
    let mut buf = vec![];
    let mut marks = vec![];
    {
        let wr = JsWriter::new(cm.clone(), "\n", &mut buf, if map.is_some() { Some(&mut marks) } else { None });
        let mut e = Emitter {
            cfg: Config::default().with_target(EsVersion::EsNext),
            cm: cm.clone(),
            comments: comments.map(|c| c as &dyn Comments),
            wr,
        };
        e.emit_program(program).expect("codegen");
    }
    if let Some(map) = map {
        let start = cm.files().iter().next().map_or(1, |f| f.start_pos.0);
        map.extend(marks.iter().map(|(p, lc)| (p.0.wrapping_sub(start), lc.line, lc.col)));
    }
    String::from_utf8(buf).expect("utf8")
}

/// Everything one instrumentation run produces.
pub struct Out {
    pub code: String,
    /// The serialized coverage data the instrumenter attached (only with
    /// `debug_initial_coverage_comment`).
    pub comment: Option<String>,
    /// The source map of the output, on demand.
    pub map: Option<Vec<Mapping>>,
}

/// Pull the `__coverage_data_json_comment__::` payload out of the comment store.
pub fn debug_comment(comments: &SingleThreadedComments) -> Option<String> {
    let (l, t) = comments.borrow_all();
    for (_, cs) in t.iter().chain(l.iter()) {
        for c in cs {
            if let Some(x) = c.text.strip_prefix("__coverage_data_json_comment__::") {
                return Some(x.to_string());
            }
        }
    }
    None
}

fn compile_ts(program: &mut Program, um: Mark, tm: Mark) {
    use swc_core::ecma::transforms::proposal::decorators;
    program.mutate(decorators(decorators::Config { legacy: true, emit_metadata: false, use_define_for_class_fields: true }));
    program.mutate(swc_core::ecma::transforms::typescript::strip(um, tm));
}

fn lower(program: &mut Program, comments: &SingleThreadedComments, um: Mark, target: EsVersion) {
    use swc_core::ecma::{preset_env::transform_from_es_version, transforms::base::assumptions::Assumptions, transforms::module::{common_js::{common_js, FeatureFlag}, path::Resolver}};
    program.mutate(transform_from_es_version(um, Some(comments.clone()), target, Assumptions::default(), false));
    let old = target < EsVersion::Es2015;
    program.mutate(common_js(Resolver::Default, um, Default::default(), FeatureFlag { support_arrow: !old, support_block_scoping: !old }));
}

/// The pipeline; without options: the behavioural baseline.
pub fn pipeline(src: &str, filename: &str, opts: Option<InstrumentOptions>, a: Around, emit_comments: bool) -> Result<Out, String> {
    GLOBALS.set(&Globals::new(), || HELPERS.set(&Helpers::new(false), || {
        let cm: Lrc<SourceMap> = Default::default();
        let comments = SingleThreadedComments::default();
        let mut program = parse(&cm, &comments, filename, src, a.mode, a.lang)?;
        let um = Mark::new();
        let tm = Mark::new();
        program.mutate(resolver(um, tm, a.lang != Lang::Js));
        let ts = a.lang != Lang::Js;
        if ts && a.strip == Strip::Before {
            compile_ts(&mut program, um, tm);
        }
        let mut comment = None;
        if let Some(opts) = opts {
            let visitor = create_coverage_instrumentation_visitor(cm.clone(), comments.clone(), opts, filename.to_string());
            program.mutate(visit_mut_pass(visitor));
            comment = debug_comment(&comments);
        }
        if ts && a.strip == Strip::After {
            compile_ts(&mut program, um, tm);
        }
        if a.jsx {
            use swc_core::ecma::transforms::react::{react, Options, Runtime};
            let o = Options { runtime: Some(Runtime::Classic), pragma: Some("J".to_string().into()), pragma_frag: Some("JF".to_string().into()), ..Default::default() };
            program.mutate(react(cm.clone(), Some(comments.clone()), o, tm, um));
        }
        if let Some(target) = a.target {
            lower(&mut program, &comments, um, target);
        }
        if ts || a.jsx || a.target.is_some() {
            program.mutate(inject_helpers(um));
        }
        program.mutate(hygiene());
        program.mutate(fixer(Some(&comments)));
        let mut map = a.map.then(Vec::new);
        let code = emit_mapped(&cm, if emit_comments { Some(&comments) } else { None }, &program, map.as_mut());
        Ok(Out { code, comment, map })
    }))
}

pub fn instrument(src: &str, filename: &str, opts: InstrumentOptions, mode: Mode, emit_comments: bool) -> Result<Out, String> {
    pipeline(src, filename, Some(opts), Around { mode, lang: Lang::Js, strip: Strip::No, jsx: false, target: None, map: false }, emit_comments)
}

pub fn catch<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            };
            Err(format!("panic: {}", m))
        }
    }
}
