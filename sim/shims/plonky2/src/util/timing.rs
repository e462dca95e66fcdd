#[derive(Default)]
pub struct TimingTree;
impl TimingTree {
    pub fn new(_: &str, _: log::Level) -> Self { Self }
    pub fn print(&self) {}
    pub fn push(&mut self, _: &str, _: log::Level) {}
    pub fn pop(&mut self) {}
    pub fn filter(&self, _: core::time::Duration) -> Self { Self }
}
#[macro_export]
macro_rules! timed {
    ($timing_tree:expr, $level:expr, $ctx:expr, $exp:expr) => {{ let _ = &$timing_tree; let _ = $ctx; $exp }};
    ($timing_tree:expr, $ctx:expr, $exp:expr) => {{ let _ = &$timing_tree; let _ = $ctx; $exp }};
}
