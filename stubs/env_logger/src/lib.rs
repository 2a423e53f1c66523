//! A logger that logs nothing: the stand-in the harness links `src/main.rs` against.
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn from_default_env() -> Self { Builder }
    pub fn from_env<E>(_: E) -> Self { Builder }
    pub fn filter_level(&mut self, _: log::LevelFilter) -> &mut Self { self }
    pub fn filter_module(&mut self, _: &str, _: log::LevelFilter) -> &mut Self { self }
    pub fn filter(&mut self, _: Option<&str>, _: log::LevelFilter) -> &mut Self { self }
    pub fn parse_default_env(&mut self) -> &mut Self { self }
    pub fn parse_filters(&mut self, _: &str) -> &mut Self { self }
    pub fn format_module_path(&mut self, _: bool) -> &mut Self { self }
    pub fn format_target(&mut self, _: bool) -> &mut Self { self }
    pub fn format_level(&mut self, _: bool) -> &mut Self { self }
    pub fn format_timestamp_secs(&mut self) -> &mut Self { self }
    pub fn format_timestamp_millis(&mut self) -> &mut Self { self }
    pub fn init(&mut self) {}
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { Ok(()) }
}
pub fn init() {}
pub fn try_init() -> Result<(), log::SetLoggerError> { Ok(()) }
pub fn builder() -> Builder { Builder }
