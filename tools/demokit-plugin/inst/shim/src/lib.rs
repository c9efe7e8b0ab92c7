//! `swc_core` as the plugin crate sees it, with the wasm host replaced: the
//! metadata of a transform holds plain values instead of asking a host.
pub use real::*;

pub mod plugin {
    pub use shim_macro::plugin_transform;

    pub mod metadata {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum TransformPluginMetadataContextKind {
            Filename = 1,
            Env = 2,
            Cwd = 3,
        }
        pub use super::proxies::TransformPluginProgramMetadata;
    }

    pub mod proxies {
        use super::metadata::TransformPluginMetadataContextKind;
        pub type PluginCommentsProxy = real::common::comments::SingleThreadedComments;
        pub type PluginSourceMapProxy = real::common::SourceMap;

        /// Answers of the host.
        #[derive(Default, Clone, Debug)]
        pub struct Host {
            pub config: Option<String>,
            pub filename: Option<String>,
            pub env: Option<String>,
            pub cwd: Option<String>,
        }

        pub struct TransformPluginProgramMetadata {
            pub comments: Option<PluginCommentsProxy>,
            pub source_map: PluginSourceMapProxy,
            pub unresolved_mark: real::common::Mark,
            pub host: Host,
        }

        impl TransformPluginProgramMetadata {
            pub fn get_transform_plugin_config(&self) -> Option<String> {
                self.host.config.clone()
            }
            pub fn get_context(&self, key: &TransformPluginMetadataContextKind) -> Option<String> {
                match key {
                    TransformPluginMetadataContextKind::Filename => self.host.filename.clone(),
                    TransformPluginMetadataContextKind::Env => self.host.env.clone(),
                    TransformPluginMetadataContextKind::Cwd => self.host.cwd.clone(),
                }
            }
            pub fn get_experimental_context(&self, _: &str) -> Option<String> {
                None
            }
        }
    }
}
