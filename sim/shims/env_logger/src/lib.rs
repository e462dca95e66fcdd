pub struct Builder;
impl Builder {
    pub fn try_init(&mut self) -> Result<(), ()> { Ok(()) }
    pub fn filter_level<T>(&mut self, _: T) -> &mut Self { self }
}
pub fn try_init() -> Result<(), ()> { Ok(()) }
pub fn init() {}
pub fn builder() -> Builder { Builder }
