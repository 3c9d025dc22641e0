//! Stand-in for Kuadrant's proxy-wasm SDK fork.  Same types and traits; the
//! host calls are answered by `host::Host`, a thread-local scripted Envoy.
pub mod host;
pub mod hostcalls;
pub mod traits;
pub mod types;

use std::cell::Cell;

thread_local! {
    static ROOT_FACTORY: Cell<Option<types::NewRootContext>> = const { Cell::new(None) };
}

pub fn set_log_level(level: types::LogLevel) {
    use std::sync::Once;
    static INIT: Once = Once::new();
    let _ = level;
    INIT.call_once(|| {
        let _ = log::set_logger(&LOGGER);
    });
    log::set_max_level(if std::env::var_os("MC_LOG").is_some() {
        log::LevelFilter::Trace
    } else {
        log::LevelFilter::Error
    });
}

struct NullLogger;
static LOGGER: NullLogger = NullLogger;
impl log::Log for NullLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // formatting is part of the code under test (it runs in production)
        let level = match r.level() {
            log::Level::Error => types::LogLevel::Error,
            log::Level::Warn => types::LogLevel::Warn,
            log::Level::Info => types::LogLevel::Info,
            log::Level::Debug => types::LogLevel::Debug,
            log::Level::Trace => types::LogLevel::Trace,
        };
        let _ = hostcalls::log(level, &r.args().to_string());
    }
    fn flush(&self) {}
}

pub fn set_root_context(callback: types::NewRootContext) {
    ROOT_FACTORY.with(|f| f.set(Some(callback)));
}

/// Harness entry point: the root context factory the shim registered.
pub fn root_factory() -> Option<types::NewRootContext> {
    ROOT_FACTORY.with(|f| f.get())
}
