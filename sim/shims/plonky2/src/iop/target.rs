#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct Wire {
    pub row: usize,
    pub column: usize,
}

#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub enum Target {
    Wire(Wire),
    VirtualTarget { index: usize },
}
impl Default for Target {
    fn default() -> Self { Self::VirtualTarget { index: 0 } }
}
impl Target {
    pub const fn wire(row: usize, column: usize) -> Self { Self::Wire(Wire { row, column }) }
}

#[derive(Copy, Clone, Debug, Default, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct BoolTarget {
    pub target: Target,
    _private: (),
}
impl BoolTarget {
    pub const fn new_unsafe(target: Target) -> Self { Self { target, _private: () } }
}
